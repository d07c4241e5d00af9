//! Runs SQL text through the real engine (planner, optimizer, executors, storage).
use std::sync::Arc;

use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::catalog::Catalog;
use ferrite::catalog::schema::Schema;
use ferrite::common::result_writer::ResultWriter;
use ferrite::concurrency::transaction::IsolationLevel;
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::wal_manager::WALManager;
use ferrite::sql::execution::execution_context::ExecutionContext;
use ferrite::sql::execution::execution_engine::ExecutionEngine;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::disk::async_disk::{AsyncDiskManager, DiskManagerConfig};
use ferrite::types_db::value::Value;
use parking_lot::RwLock;

#[derive(Default)]
pub struct Rows {
    pub columns: Vec<String>,
    pub rows: Vec<Vec<Value>>,
}
impl ResultWriter for Rows {
    fn write_schema_header(&mut self, columns: Vec<String>) {
        self.columns = columns;
    }
    fn write_row(&mut self, values: Vec<Value>) {
        self.rows.push(values);
    }
    fn write_row_with_schema(&mut self, values: Vec<Value>, _s: &Schema) {
        self.rows.push(values);
    }
    fn write_message(&mut self, _m: &str) {}
}

pub struct Db {
    pub rt: Arc<tokio::runtime::Runtime>,
    pub dir: crate::util::Scratch,
    pub bpm: Arc<BufferPoolManager>,
    pub catalog: Arc<RwLock<Catalog>>,
    pub factory: Arc<TransactionManagerFactory>,
    pub wal: Arc<WALManager>,
    pub log: Arc<RwLock<LogManager>>,
    pub engine: parking_lot::Mutex<ExecutionEngine>,
    pub iso: IsolationLevel,
}

impl Db {
    pub fn new(pool: usize, iso: IsolationLevel) -> Db {
        let rt = crate::util::runtime();
        let dir = crate::util::Scratch::new("sql");
        let (bpm, log) = rt.block_on(async {
            let disk = Arc::new(
                AsyncDiskManager::new(
                    dir.file("t.db"),
                    dir.file("t.log"),
                    DiskManagerConfig::default(),
                )
                .await
                .expect("disk manager"),
            );
            let bpm = Arc::new(
                BufferPoolManager::new(
                    pool,
                    disk.clone(),
                    Arc::new(RwLock::new(LRUKReplacer::new(pool, 2))),
                )
                .expect("bpm"),
            );
            let log = Arc::new(RwLock::new(LogManager::new(disk)));
            log.write().run_flush_thread();
            (bpm, log)
        });
        let wal = Arc::new(WALManager::new(log.clone()));
        let factory = Arc::new(TransactionManagerFactory::with_wal_manager(
            bpm.clone(),
            wal.clone(),
        ));
        let catalog = Arc::new(RwLock::new(Catalog::new(
            bpm.clone(),
            factory.get_transaction_manager(),
        )));
        let engine = ExecutionEngine::new(catalog.clone(), bpm.clone(), factory.clone(), wal.clone());
        Db {
            rt,
            dir,
            bpm,
            catalog,
            factory,
            wal,
            log,
            engine: parking_lot::Mutex::new(engine),
            iso,
        }
    }

    pub fn begin(&self, iso: IsolationLevel) -> Arc<TransactionContext> {
        self.factory.begin_transaction(iso)
    }

    pub fn exec_in(&self, sql: &str, txn: &Arc<TransactionContext>) -> Result<(bool, Rows), String> {
        let ctx = Arc::new(RwLock::new(ExecutionContext::new(
            self.bpm.clone(),
            self.catalog.clone(),
            txn.clone(),
        )));
        let mut w = Rows::default();
        let r = self
            .rt
            .block_on(async { self.engine.lock().execute_sql(sql, ctx, &mut w).await });
        r.map(|b| (b, w)).map_err(|e| e.to_string())
    }

    pub fn commit(&self, txn: Arc<TransactionContext>) -> bool {
        self.rt.block_on(self.factory.commit_transaction(txn))
    }
    pub fn abort(&self, txn: Arc<TransactionContext>) {
        self.factory.abort_transaction(txn);
    }

    /// One statement in its own transaction: commit when it succeeds, abort when it errors.
    pub fn exec(&self, sql: &str) -> Result<(bool, Rows), String> {
        let t = self.begin(self.iso);
        let r = self.exec_in(sql, &t);
        match &r {
            Ok(_) => {
                if !self.commit(t) {
                    return Err("commit failed".into());
                }
            },
            Err(_) => self.abort(t),
        }
        r
    }
}
