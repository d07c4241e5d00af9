//! P24: client sessions over the network.
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::Arc;
use std::time::Duration;

use ferrite::client::DatabaseClient;
use ferrite::common::db_instance::{DBConfig, DBInstance};
use ferrite::concurrency::transaction::IsolationLevel;
use ferrite::server::{DatabaseRequest, DatabaseResponse, QueryResults, ServerHandle};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use parking_lot::Mutex;
use serde_json::json;

use crate::check;
use crate::ctx::{Ctx, Res};
use crate::gens;
use crate::rng::Rng;
use crate::util;

const PATIENCE: Duration = Duration::from_secs(25);

struct Site {
    port: u16,
    db: Arc<DBInstance>,
    server: Option<ServerHandle>,
    #[allow(dead_code)]
    rt: Arc<tokio::runtime::Runtime>,
    #[allow(dead_code)]
    dir: util::Scratch,
}

impl Site {
    fn open() -> Result<Site, String> {
        let dir = util::Scratch::new("serve");
        let rt = util::runtime_n(3);
        let cfg = DBConfig {
            db_filename: dir.file("t.db"),
            db_log_filename: dir.file("t.log"),
            buffer_pool_size: 256,
            ..DBConfig::default()
        };
        let db = Arc::new(rt.block_on(DBInstance::new(cfg)).map_err(|e| format!("open: {e}"))?);
        for _ in 0..20 {
            let port = TcpListener::bind("127.0.0.1:0").and_then(|l| l.local_addr()).map_err(|e| format!("harness: no port: {e}"))?.port();
            let mut server = ServerHandle::new(port);
            server.start(db.clone()).map_err(|e| format!("the server does not start: {e}"))?;
            for _ in 0..500 {
                if TcpStream::connect(("127.0.0.1", port)).is_ok() {
                    return Ok(Site { port, db, server: Some(server), rt, dir });
                }
                std::thread::sleep(Duration::from_millis(4));
            }
        }
        Err("the server does not listen".into())
    }
}
impl Drop for Site {
    fn drop(&mut self) {
        // The handle waits for its accept loop, which only ends with the process
        std::mem::forget(self.server.take());
    }
}

/// A connection that frames messages by their encoding alone.
struct Wire {
    s: TcpStream,
    buf: Vec<u8>,
}
enum Link {
    Raw(Wire),
    Client(Arc<tokio::runtime::Runtime>, DatabaseClient),
}

impl Wire {
    fn connect(port: u16) -> Result<Wire, String> {
        let s = TcpStream::connect(("127.0.0.1", port)).map_err(|e| format!("the server takes no more connections: {e}"))?;
        let _ = s.set_nodelay(true);
        s.set_read_timeout(Some(PATIENCE)).map_err(|e| e.to_string())?;
        Ok(Wire { s, buf: vec![] })
    }
    fn put(&mut self, bytes: &[u8]) -> Res {
        self.s.write_all(bytes).map_err(|e| format!("the server hung up: {e}"))
    }
    fn get(&mut self) -> Result<DatabaseResponse, String> {
        loop {
            if !self.buf.is_empty() {
                match postcard::take_from_bytes::<DatabaseResponse>(&self.buf) {
                    Ok((r, rest)) => {
                        self.buf = rest.to_vec();
                        return Ok(r);
                    },
                    Err(postcard::Error::DeserializeUnexpectedEnd) => {},
                    Err(e) => return Err(format!("the answer is not a response: {e}")),
                }
            }
            let mut t = vec![0; 65536];
            match self.s.read(&mut t) {
                Ok(0) => return Err(format!("the server hung up in the middle of an answer ({} bytes)", self.buf.len())),
                Ok(n) => self.buf.extend(&t[..n]),
                Err(e) => return Err(format!("no answer within {PATIENCE:?} ({e}, {} bytes so far)", self.buf.len())),
            }
        }
    }
}

fn enc(r: &DatabaseRequest) -> Vec<u8> {
    postcard::to_allocvec(r).expect("request encodes")
}

impl Link {
    fn open(site: &Site, rng: &mut Rng, rt: &Arc<tokio::runtime::Runtime>) -> Result<Link, String> {
        Ok(if rng.chance(1, 3) {
            let c = rt.block_on(DatabaseClient::connect(&format!("127.0.0.1:{}", site.port))).map_err(|e| format!("connect: {e}"))?;
            Link::Client(rt.clone(), c)
        } else {
            Link::Raw(Wire::connect(site.port)?)
        })
    }
    /// A query; the error text of a refusal.
    fn query(&mut self, sql: &str, rng: &mut Rng) -> Result<Result<QueryResults, String>, String> {
        match self {
            Link::Client(rt, c) => {
                let r = rt.block_on(async { tokio::time::timeout(PATIENCE, c.execute_query(sql)).await });
                match r {
                    Err(_) => Err(format!("no answer within {PATIENCE:?}")),
                    Ok(Ok(r)) => Ok(Ok(r)),
                    Ok(Err(ferrite::common::exception::DBError::Client(e))) if e != "Server disconnected" => Ok(Err(e)),
                    Ok(Err(e)) => Err(format!("the client fails: {e}")),
                }
            },
            Link::Raw(_) => match self.ask(&DatabaseRequest::Query(sql.into()), rng)? {
                DatabaseResponse::Results(r) => Ok(Ok(r)),
                DatabaseResponse::Error(e) => Ok(Err(e)),
                r => Err(format!("a query is answered by {r:?}")),
            },
        }
    }
    /// Any request, in one piece or several.
    fn ask(&mut self, r: &DatabaseRequest, rng: &mut Rng) -> Result<DatabaseResponse, String> {
        let Link::Raw(w) = self else { return Err("harness: not a raw link".into()) };
        let b = enc(r);
        if rng.chance(1, 6) && b.len() > 1 {
            let cut = 1 + rng.below(b.len() - 1);
            w.put(&b[..cut])?;
            std::thread::sleep(Duration::from_millis(rng.below(12) as u64));
            w.put(&b[cut..])?;
        } else {
            w.put(&b)?;
        }
        w.get()
    }
}

type Row = (i32, Option<i32>, String);

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Pending,
    Committing,
    Committed,
    Undone,
}

fn cut(s: &str) -> String {
    if s.len() > 160 { format!("{}… ({} bytes)", s.chars().take(140).collect::<String>(), s.len()) } else { s.into() }
}

fn rows(r: &QueryResults) -> Result<Vec<Row>, String> {
    check!(r.column_names == ["id", "v", "s"], "the columns are {:?}", r.column_names);
    r.rows
        .iter()
        .map(|r| {
            check!(r.len() == 3, "a row of {} values: {r:?}", r.len());
            let id = match r[0].get_val() {
                Val::Integer(i) => *i,
                v => return Err(format!("id {v:?}")),
            };
            let v = match r[1].get_val() {
                Val::Integer(i) => Some(*i),
                Val::Null => None,
                v => return Err(format!("v {v:?}")),
            };
            let s = match r[2].get_val() {
                Val::VarLen(s) => s.clone(),
                v => return Err(format!("s {v:?}")),
            };
            Ok((id, v, s))
        })
        .collect()
}

fn differ(what: &str, got: &[Row], want: &BTreeMap<i32, (Option<i32>, String)>) -> Res {
    let mut g: BTreeMap<i32, (Option<i32>, String)> = BTreeMap::new();
    for r in got {
        check!(g.insert(r.0, (r.1, r.2.clone())).is_none(), "{what}: row {} is there twice", r.0);
    }
    for (k, v) in want {
        check!(g.get(k) == Some(v), "{what}: row {k} is {:?}, expected {:?}", g.get(k).map(|x| (x.0, cut(&x.1))), (v.0, cut(&v.1)));
    }
    for k in g.keys() {
        check!(want.contains_key(k), "{what}: row {k} should not be there");
    }
    Ok(())
}

fn text(rng: &mut Rng, long: bool) -> String {
    let n = if long { rng.urange(400, 2200) } else { rng.below(30) };
    (0..n).map(|_| *rng.pick(&['a', 'b', 'z', 'Q', ' ', '0', '_', 'é', '%'])).collect()
}

/// One session: a table of its own that it knows exactly, and a table shared by all.
#[allow(clippy::too_many_arguments)]
fn session(ctx: &Ctx, site: &Site, me: usize, ops: usize, rng: &mut Rng, rt: &Arc<tokio::runtime::Runtime>, fates: &Mutex<BTreeMap<i32, Fate>>) -> Res {
    let mut l = Link::open(site, rng, rt)?;
    let mut done: BTreeMap<i32, (Option<i32>, String)> = BTreeMap::new();
    let mut work: Option<BTreeMap<i32, (Option<i32>, String)>> = None;
    let mut mine: Vec<i32> = vec![]; // shared rows of the open transaction
    let mut next = 1;
    let t = format!("p{me}");
    let e = l.query(&format!("CREATE TABLE {t} (id INTEGER, v INTEGER, s VARCHAR(3000))"), rng)?;
    check!(e.is_ok(), "CREATE TABLE {t}: {:?}", e.err());
    for step in 0..ops {
        let at = |e: String| format!("session {me}, step {step}: {e}");
        let raw = matches!(l, Link::Raw(_));
        let cur = work.clone().unwrap_or_else(|| done.clone());
        match rng.below(16) {
            // insert
            0..=3 => {
                let n = if rng.chance(1, 5) { rng.urange(20, 60) } else { rng.urange(1, 4) };
                let long = rng.chance(1, 8);
                let mut new = cur.clone();
                let mut vals = vec![];
                for _ in 0..if long { n.min(3) } else { n } {
                    let (v, s) = (Some(rng.range(-50, 50) as i32), text(rng, long));
                    vals.push(format!("({next}, {}, '{s}')", v.map_or("NULL".into(), |v| v.to_string())));
                    new.insert(next, (v, s));
                    next += 1;
                }
                let sql = format!("INSERT INTO {t} VALUES {}", vals.join(", "));
                ctx.max("longest_request", sql.len() as u64);
                let r = l.query(&sql, rng).map_err(at)?;
                check!(r.is_ok(), "session {me}, step {step}: {} is refused: {}", cut(&sql), r.unwrap_err());
                *work.as_mut().unwrap_or(&mut done) = new;
            },
            // update, delete
            4 | 5 => {
                let k = rng.range(0, next as i64 + 1) as i32;
                let by_id = rng.chance(1, 2);
                let hit = |id: i32, v: Option<i32>| if by_id { id == k } else { v.is_some_and(|v| v > k) };
                let cond = if by_id { format!("id = {k}") } else { format!("v > {k}") };
                let (sql, new) = if rng.chance(1, 2) {
                    let c = rng.range(-50, 50) as i32;
                    (format!("UPDATE {t} SET v = {c} WHERE {cond}"), cur.iter().map(|(i, (v, s))| (*i, (if hit(*i, *v) { Some(c) } else { *v }, s.clone()))).collect::<BTreeMap<_, _>>())
                } else {
                    (format!("DELETE FROM {t} WHERE {cond}"), cur.iter().filter(|(i, (v, _))| !hit(**i, *v)).map(|(i, x)| (*i, x.clone())).collect())
                };
                let r = l.query(&sql, rng).map_err(at)?;
                check!(r.is_ok(), "session {me}, step {step}: {sql} is refused: {}", r.unwrap_err());
                *work.as_mut().unwrap_or(&mut done) = new;
            },
            // select
            6..=8 => {
                let k = rng.range(-40, 40) as i32;
                let all = rng.chance(2, 3);
                let sql = if all { format!("SELECT id, v, s FROM {t}") } else { format!("SELECT id, v, s FROM {t} WHERE v > {k}") };
                let r = l.query(&sql, rng).map_err(at)?.map_err(|e| format!("session {me}, step {step}: {sql} is refused: {e}"))?;
                ctx.max("largest_answer_rows", r.rows.len() as u64);
                let want = cur.iter().filter(|(_, (v, _))| all || v.is_some_and(|v| v > k)).map(|(i, x)| (*i, x.clone())).collect();
                differ(&format!("session {me}, step {step} ({}): {sql}", if work.is_some() { "in a transaction" } else { "on its own" }), &rows(&r).map_err(at)?, &want)?;
                ctx.count("selects_compared", 1);
            },
            // the shared table
            9 => {
                let id = {
                    let mut f = fates.lock();
                    let id = f.keys().last().map_or(1, |x| x + 1);
                    f.insert(id, if work.is_some() { Fate::Pending } else { Fate::Committing });
                    id
                };
                let r = l.query(&format!("INSERT INTO shared VALUES ({id}, {me}, 'x')"), rng).map_err(at)?;
                check!(r.is_ok(), "session {me}, step {step}: an insert into the shared table is refused: {}", r.unwrap_err());
                if work.is_some() {
                    mine.push(id);
                } else {
                    fates.lock().insert(id, Fate::Committed);
                }
            },
            10 => {
                let before = fates.lock().clone();
                let r = l.query("SELECT id, v, s FROM shared", rng).map_err(at)?.map_err(|e| format!("session {me}, step {step}: the shared table cannot be read: {e}"))?;
                let got = rows(&r).map_err(at)?;
                let now = fates.lock().clone();
                let mut seen = std::collections::HashSet::new();
                for (id, ..) in &got {
                    check!(seen.insert(*id), "session {me}, step {step}: shared row {id} is there twice");
                    let f = now.get(id).copied();
                    check!(matches!(f, Some(Fate::Committing | Fate::Committed)) || mine.contains(id), "session {me}, step {step}: shared row {id} is seen, but its transaction is {f:?}");
                }
                for id in &mine {
                    check!(seen.contains(id), "session {me}, step {step}: its own row {id} of the open transaction is not seen");
                }
                if work.is_none() {
                    for (id, f) in &before {
                        check!(*f != Fate::Committed || seen.contains(id), "session {me}, step {step}: committed shared row {id} is not seen");
                    }
                }
                ctx.count("shared_reads", 1);
            },
            // transactions
            11 | 12 if raw => {
                let iso = *rng.pick(&[IsolationLevel::ReadCommitted, IsolationLevel::RepeatableRead, IsolationLevel::Serializable, IsolationLevel::Snapshot]);
                let r = l.ask(&DatabaseRequest::BeginTransaction { isolation_level: iso }, rng).map_err(at)?;
                let ok = matches!(r, DatabaseResponse::Results(_));
                check!(ok == work.is_none(), "session {me}, step {step}: begin with a transaction {}: {r:?}", if work.is_some() { "open" } else { "not open" });
                if work.is_none() {
                    work = Some(done.clone());
                }
            },
            13 if raw => {
                let commit = rng.chance(1, 2);
                if commit {
                    for id in &mine {
                        fates.lock().insert(*id, Fate::Committing);
                    }
                }
                let r = l.ask(&if commit { DatabaseRequest::Commit } else { DatabaseRequest::Rollback }, rng).map_err(at)?;
                let ok = matches!(r, DatabaseResponse::Results(_));
                check!(ok == work.is_some(), "session {me}, step {step}: {} with a transaction {}: {r:?}", if commit { "commit" } else { "rollback" }, if work.is_some() { "open" } else { "not open" });
                if let Some(w) = work.take() {
                    if commit {
                        done = w;
                    }
                    for id in mine.drain(..) {
                        fates.lock().insert(id, if commit { Fate::Committed } else { Fate::Undone });
                    }
                    ctx.count(if commit { "commits" } else { "rollbacks" }, 1);
                }
            },
            // what cannot be done is refused and changes nothing
            14 => {
                let r = match rng.below(if raw { 6 } else { 3 }) {
                    0 => l.query("SELEC 1", rng).map_err(at)?.err(),
                    1 => l.query("SELECT nope FROM shared", rng).map_err(at)?.err(),
                    2 => l.query(&format!("INSERT INTO nope VALUES (1, '{}')", text(rng, true)), rng).map_err(at)?.err(),
                    3 => match l.ask(&DatabaseRequest::Execute { stmt_id: u64::MAX - rng.below(9) as u64, params: vec![gens::value(rng, TypeId::Integer, 8)] }, rng).map_err(at)? {
                        DatabaseResponse::Error(e) => Some(e),
                        _ => None,
                    },
                    4 => {
                        // Two requests in one piece get two answers, in their order
                        let Link::Raw(w) = &mut l else { unreachable!() };
                        let mut b = enc(&DatabaseRequest::Query("SELEC 1".into()));
                        b.extend(enc(&DatabaseRequest::Query(format!("SELECT id, v, s FROM {t}"))));
                        w.put(&b).map_err(at)?;
                        let a = w.get().map_err(|e| format!("session {me}, step {step}: first of two requests sent together: {e}"))?;
                        check!(matches!(a, DatabaseResponse::Error(_)), "session {me}, step {step}: answers come in another order than the requests");
                        match w.get().map_err(|e| format!("session {me}, step {step}: second of two requests sent together: {e}"))? {
                            DatabaseResponse::Results(r) => differ(&format!("session {me}, step {step}"), &rows(&r)?, &cur)?,
                            a => return Err(format!("session {me}, step {step}: second answer {a:?}")),
                        }
                        ctx.count("pipelined", 1);
                        Some(String::new())
                    },
                    _ => {
                        // Noise on a connection of its own
                        let mut w = Wire::connect(site.port).map_err(at)?;
                        let n = rng.urange(1, 2000);
                        let b: Vec<u8> = (0..n).map(|_| rng.next() as u8).collect();
                        let first = b[0];
                        let mut b = b;
                        b[0] = if first < 7 { 7 + first } else { first };
                        let _ = w.put(&b);
                        let _ = w.s.shutdown(Shutdown::Write);
                        let mut sink = vec![];
                        let _ = w.s.read_to_end(&mut sink);
                        ctx.count("noise_connections", 1);
                        Some(String::new())
                    },
                };
                check!(r.is_some(), "session {me}, step {step}: a request that cannot be carried out succeeds");
                ctx.count("refusals", 1);
            },
            // prepared statements run when executed, as often as executed
            15 if rng.chance(1, 2) && raw => {
                let insert = rng.chance(1, 2);
                let s = text(rng, false);
                let sql = if insert { format!("INSERT INTO {t} VALUES ({next}, 1, '{s}')") } else { format!("SELECT id, v, s FROM {t}") };
                let id = match l.ask(&DatabaseRequest::Prepare(sql.clone()), rng).map_err(at)? {
                    DatabaseResponse::PrepareOk { stmt_id, param_types } => {
                        check!(param_types.is_empty(), "session {me}, step {step}: a statement without parameters has parameters {param_types:?}");
                        stmt_id
                    },
                    r => return Err(format!("session {me}, step {step}: preparing {sql}: {r:?}")),
                };
                let run = rng.chance(2, 3);
                if run {
                    if rng.chance(1, 3) {
                        let r = l.ask(&DatabaseRequest::Execute { stmt_id: id, params: vec![Value::new(1)] }, rng).map_err(at)?;
                        check!(matches!(r, DatabaseResponse::Error(_)), "session {me}, step {step}: executing {sql} with a parameter too many: {r:?}");
                    }
                    match l.ask(&DatabaseRequest::Execute { stmt_id: id, params: vec![] }, rng).map_err(at)? {
                        DatabaseResponse::Results(r) if !insert => differ(&format!("session {me}, step {step}: prepared {sql}"), &rows(&r).map_err(at)?, &cur)?,
                        DatabaseResponse::Results(_) => {
                            work.as_mut().unwrap_or(&mut done).insert(next, (Some(1), s));
                        },
                        r => return Err(format!("session {me}, step {step}: executing prepared {sql}: {r:?}")),
                    }
                }
                next += 1;
                let r = l.ask(&DatabaseRequest::Close(id), rng).map_err(at)?;
                check!(matches!(r, DatabaseResponse::Results(_)), "session {me}, step {step}: closing a statement: {r:?}");
                let r = l.ask(&DatabaseRequest::Execute { stmt_id: id, params: vec![] }, rng).map_err(at)?;
                check!(matches!(r, DatabaseResponse::Error(_)), "session {me}, step {step}: a closed statement is executed: {r:?}");
                ctx.count("prepared", 1);
            },
            15 => {
                // A client that goes takes its open transaction with it
                for id in mine.drain(..) {
                    fates.lock().insert(id, Fate::Undone);
                }
                if work.take().is_some() {
                    ctx.count("disconnects_in_transaction", 1);
                }
                drop(l);
                std::thread::sleep(Duration::from_millis(20));
                l = Link::open(site, rng, rt).map_err(at)?;
                // its rows are gone once the server has noticed
                let mut r = Ok(());
                for _ in 0..100 {
                    let q = l.query(&format!("SELECT id, v, s FROM {t}"), rng).map_err(at)?.map_err(|e| format!("session {me}, step {step}: after reconnecting: {e}"))?;
                    r = differ(&format!("session {me}, step {step}: after reconnecting"), &rows(&q)?, &done);
                    if r.is_ok() {
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(30));
                }
                r?;
            },
            _ => {},
        }
        ctx.count("requests", 1);
        ctx.seen(&(me, step, cur.len(), work.is_some(), next));
    }
    // leave nothing open
    for id in mine.drain(..) {
        fates.lock().insert(id, Fate::Undone);
    }
    if work.is_some() {
        let r = l.ask(&DatabaseRequest::Rollback, rng)?;
        check!(matches!(r, DatabaseResponse::Results(_)), "rollback: {r:?}");
    }
    let r = l.query(&format!("SELECT id, v, s FROM {t}"), rng)?.map_err(|e| format!("session {me}: {e}"))?;
    differ(&format!("session {me}, at the end"), &rows(&r)?, &done)
}

fn sessions(ctx: &Ctx, rng: &mut Rng, seed: u64) -> Res {
    let site = Site::open()?;
    let n = rng.urange(1, 6);
    let ops = rng.urange(20, 70);
    let fates: Mutex<BTreeMap<i32, Fate>> = Mutex::new(BTreeMap::new());
    let rt = util::runtime_n(1);
    let mut l = Link::Raw(Wire::connect(site.port)?);
    let r = l.query("CREATE TABLE shared (id INTEGER, v INTEGER, s VARCHAR(10))", rng)?;
    check!(r.is_ok(), "CREATE TABLE shared: {:?}", r.err());
    let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for (me, sd) in seeds.iter().enumerate() {
            let (site, fates, rt, bad) = (&site, &fates, &rt, &bad);
            s.spawn(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| session(ctx, site, me, ops, &mut Rng::new(*sd), rt, fates)));
                match r {
                    Ok(Ok(())) => {},
                    Ok(Err(e)) => {
                        bad.lock().get_or_insert(e);
                    },
                    Err(_) => {
                        bad.lock().get_or_insert(format!("session {me} panicked"));
                    },
                }
            });
        }
    });
    if let Some(e) = bad.into_inner() {
        return Err(e);
    }
    // Everything committed, by whichever session, is there once
    let mut last = Ok(());
    for _ in 0..100 {
        let r = l.query("SELECT id, v, s FROM shared", rng)?.map_err(|e| format!("the shared table cannot be read: {e}"))?;
        let mut got: Vec<i32> = rows(&r)?.iter().map(|r| r.0).collect();
        got.sort_unstable();
        let want: Vec<i32> = fates.lock().iter().filter(|(_, f)| **f == Fate::Committed).map(|(i, _)| *i).collect();
        last = if got == want { Ok(()) } else { Err(format!("the shared table holds rows {got:?}, committed were {want:?}")) };
        if last.is_ok() {
            break;
        }
        std::thread::sleep(Duration::from_millis(30));
    }
    last?;
    ctx.sample("sessions", || json!({"seed": seed, "sessions": n, "requests each": ops, "shared rows": fates.lock().len()}));
    let _ = &site.db;
    Ok(())
}

/// Concurrent transfers between accounts neither make nor lose money.
fn transfers(ctx: &Ctx, rng: &mut Rng, seed: u64) -> Res {
    let site = Site::open()?;
    let accounts = rng.urange(2, 8) as i32;
    let threads = rng.urange(2, 6);
    let mut l = Link::Raw(Wire::connect(site.port)?);
    let must = |r: Result<QueryResults, String>, what: &str| r.map_err(|e| format!("{what}: {e}"));
    must(l.query("CREATE TABLE acc (id INTEGER, v INTEGER, s VARCHAR(10))", rng)?, "create")?;
    let all: Vec<String> = (1..=accounts).map(|i| format!("({i}, 1000, 'a')")).collect();
    must(l.query(&format!("INSERT INTO acc VALUES {}", all.join(", ")), rng)?, "insert")?;
    let level = |rng: &mut Rng| *rng.pick(&[IsolationLevel::RepeatableRead, IsolationLevel::Snapshot, IsolationLevel::Serializable]);
    let moved: Mutex<BTreeMap<i32, i64>> = Mutex::new(BTreeMap::new());
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let seeds: Vec<u64> = (0..threads).map(|_| rng.next()).collect();
    std::thread::scope(|sc| {
        for (me, sd) in seeds.iter().enumerate() {
            let (site, moved, bad) = (&site, &moved, &bad);
            sc.spawn(move || {
                let mut rng = Rng::new(*sd);
                let mut go = || -> Res {
                    let mut l = Link::Raw(Wire::connect(site.port)?);
                    for _ in 0..25 {
                        let ok = |r: DatabaseResponse| matches!(r, DatabaseResponse::Results(_));
                        let iso = level(&mut rng);
                        check!(ok(l.ask(&DatabaseRequest::BeginTransaction { isolation_level: iso }, &mut rng)?), "begin is refused");
                        if me == 0 || rng.chance(1, 4) {
                            // A snapshot holds all of the money, twice the same
                            let mut first = None;
                            for _ in 0..2 {
                                let r = l.query("SELECT id, v, s FROM acc", &mut rng)?.map_err(|e| format!("the accounts cannot be read: {e}"))?;
                                let mut r = rows(&r)?;
                                r.sort();
                                let sum: i64 = r.iter().map(|r| r.1.unwrap_or(0) as i64).sum();
                                check!(r.len() == accounts as usize && sum == 1000 * accounts as i64, "a transaction under {iso:?} sees {} accounts with {sum} in all, not {}", r.len(), 1000 * accounts);
                                check!(first.get_or_insert(r.clone()) == &r, "two reads of one transaction under {iso:?} differ: {first:?} and {r:?}");
                            }
                            check!(ok(l.ask(&DatabaseRequest::Commit, &mut rng)?), "the commit of a reader fails");
                            ctx.count("snapshots_summed", 1);
                            continue;
                        }
                        let (a, b) = (rng.range(1, accounts as i64) as i32, rng.range(1, accounts as i64) as i32);
                        let x = rng.range(1, 9) as i32;
                        let mut fine = true;
                        for sql in [format!("UPDATE acc SET v = v - {x} WHERE id = {a}"), format!("UPDATE acc SET v = v + {x} WHERE id = {b}")] {
                            if l.query(&sql, &mut rng)?.is_err() {
                                fine = false;
                                break;
                            }
                        }
                        if fine && !rng.chance(1, 5) {
                            if ok(l.ask(&DatabaseRequest::Commit, &mut rng)?) {
                                let mut m = moved.lock();
                                *m.entry(a).or_default() -= x as i64;
                                *m.entry(b).or_default() += x as i64;
                                ctx.count("transfers_committed", 1);
                            } else {
                                ctx.count("commits_refused", 1);
                            }
                        } else {
                            ctx.count(if fine { "transfers_rolled_back" } else { "conflicts" }, 1);
                            check!(ok(l.ask(&DatabaseRequest::Rollback, &mut rng)?), "a rollback is refused");
                        }
                    }
                    Ok(())
                };
                if let Err(e) = go() {
                    bad.lock().get_or_insert(format!("client {me}: {e}"));
                }
            });
        }
    });
    if let Some(e) = bad.into_inner() {
        return Err(e);
    }
    let r = must(l.query("SELECT id, v, s FROM acc", rng)?, "select")?;
    let moved = moved.into_inner();
    let want = (1..=accounts).map(|i| (i, (Some((1000 + moved.get(&i).copied().unwrap_or(0)) as i32), "a".to_string()))).collect();
    differ("accounts after all transfers", &rows(&r)?, &want)?;
    ctx.seen(&("transfers", seed, moved));
    Ok(())
}

/// Messages survive their encoding; bytes that are none are refused.
fn codec(ctx: &Ctx, rng: &mut Rng, _seed: u64) -> Res {
    for _ in 0..60 {
        let vals = |rng: &mut Rng| -> Vec<Value> { (0..rng.below(6)).map(|_| { let t = *rng.pick(&[TypeId::Integer, TypeId::BigInt, TypeId::VarChar, TypeId::Boolean, TypeId::Decimal, TypeId::SmallInt, TypeId::TinyInt, TypeId::Timestamp]); gens::value(rng, t, 40) }).collect() };
        let long = rng.chance(1, 6);
        let req = match rng.below(7) {
            0 => DatabaseRequest::Query(text(rng, long)),
            1 => DatabaseRequest::BeginTransaction { isolation_level: *rng.pick(&[IsolationLevel::ReadUncommitted, IsolationLevel::ReadCommitted, IsolationLevel::RepeatableRead, IsolationLevel::Serializable, IsolationLevel::Snapshot]) },
            2 => DatabaseRequest::Commit,
            3 => DatabaseRequest::Rollback,
            4 => DatabaseRequest::Prepare(text(rng, long)),
            5 => DatabaseRequest::Execute { stmt_id: rng.next() >> rng.below(64), params: vals(rng) },
            _ => DatabaseRequest::Close(rng.next() >> rng.below(64)),
        };
        let b = enc(&req);
        let (d, rest) = postcard::take_from_bytes::<DatabaseRequest>(&b).map_err(|e| format!("{req:?}: {e}"))?;
        check!(rest.is_empty() && format!("{d:?}") == format!("{req:?}"), "{req:?} arrives as {d:?}");
        let resp = match rng.below(3) {
            0 => DatabaseResponse::Error(text(rng, long)),
            1 => DatabaseResponse::PrepareOk { stmt_id: rng.next(), param_types: vec![TypeId::Integer, TypeId::VarChar] },
            _ => DatabaseResponse::Results(QueryResults::new((0..rng.below(5)).map(|_| text(rng, false)).collect(), (0..rng.below(8)).map(|_| vals(rng)).collect())),
        };
        let b = postcard::to_allocvec(&resp).map_err(|e| e.to_string())?;
        let (d, rest) = postcard::take_from_bytes::<DatabaseResponse>(&b).map_err(|e| format!("{resp:?}: {e}"))?;
        check!(rest.is_empty() && format!("{d:?}") == format!("{resp:?}"), "{resp:?} arrives as {d:?}");
        let at = rng.below(b.len());
        check!(postcard::from_bytes::<DatabaseResponse>(&b[..at]).is_err(), "the first {at} of {} bytes are taken for a response", b.len());
        let mut x = b.clone();
        x[at] ^= 1 << rng.below(8);
        let _ = postcard::from_bytes::<DatabaseResponse>(&x);
        ctx.seen(&b);
        ctx.eval(1);
    }
    Ok(())
}

pub fn run(ctx: &Arc<Ctx>) {
    let d = util::Scratch::new("cwd");
    let _ = std::env::set_current_dir(&d.0);
    ctx.rule("every request gets exactly one answer, on its own connection and in order, however long request and answer are and however they are cut up; queries answer from exactly the session's committed work and its open transaction; commit, rollback and disconnection end a transaction accordingly; no session sees rows another has not asked to commit, and everything acknowledged is there once; what cannot be done is answered by an error and disturbs nobody");
    ctx.assume("sessions write disjoint rows, so no statement is refused for a conflict; updates keep the size of a row (a row that outgrows a full page is refused)");
    ctx.explore("sessions", 3, 10.0, 6, u64::MAX, sessions);
    ctx.explore("transfers", 2, 5.0, 4, u64::MAX, transfers);
    ctx.explore("codec", 4, 1.0, 20, u64::MAX, codec);
}
