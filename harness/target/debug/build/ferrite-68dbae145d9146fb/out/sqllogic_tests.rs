// @generated by build.rs; do not edit
#[tokio::test(flavor = "multi_thread")]
async fn slt_ddl_create_table() -> Result<(), Box<dyn std::error::Error>> {
run_single_slt_file(std::path::Path::new("/repo/tests/sqllogic/ddl/create_table.slt"))
.await
}

#[tokio::test(flavor = "multi_thread")]
async fn slt_ddl_create_table_complex() -> Result<(), Box<dyn std::error::Error>> {
run_single_slt_file(std::path::Path::new("/repo/tests/sqllogic/ddl/create_table_complex.slt"))
.await
}

#[tokio::test(flavor = "multi_thread")]
async fn slt_ddl_create_table_constraints() -> Result<(), Box<dyn std::error::Error>> {
run_single_slt_file(std::path::Path::new("/repo/tests/sqllogic/ddl/create_table_constraints.slt"))
.await
}

#[tokio::test(flavor = "multi_thread")]
async fn slt_dml_insert() -> Result<(), Box<dyn std::error::Error>> {
run_single_slt_file(std::path::Path::new("/repo/tests/sqllogic/dml/insert.slt"))
.await
}

#[tokio::test(flavor = "multi_thread")]
async fn slt_dml_insert_complex() -> Result<(), Box<dyn std::error::Error>> {
run_single_slt_file(std::path::Path::new("/repo/tests/sqllogic/dml/insert_complex.slt"))
.await
}

#[tokio::test(flavor = "multi_thread")]
async fn slt_dml_insert_update_constraints() -> Result<(), Box<dyn std::error::Error>> {
run_single_slt_file(std::path::Path::new("/repo/tests/sqllogic/dml/insert_update_constraints.slt"))
.await
}

#[tokio::test(flavor = "multi_thread")]
async fn slt_queries_complex_queries() -> Result<(), Box<dyn std::error::Error>> {
run_single_slt_file(std::path::Path::new("/repo/tests/sqllogic/queries/complex_queries.slt"))
.await
}

#[tokio::test(flavor = "multi_thread")]
async fn slt_queries_simple_selects() -> Result<(), Box<dyn std::error::Error>> {
run_single_slt_file(std::path::Path::new("/repo/tests/sqllogic/queries/simple_selects.slt"))
.await
}

