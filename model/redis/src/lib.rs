//! The real `redis` crate's commands, values, conversions and errors over connections to a modelled server:
//! every command is recorded and answered by a function the harness installs, possibly after a delay.
pub use real::*;
use std::time::Duration;
use symrt::Global;

pub struct Call { pub args: Vec<Vec<u8>>, pub conn: usize, pub done: bool }
impl Call {
    pub fn arg(&self, k: usize) -> &[u8] { &self.args[k] }
}
type Handler = Box<dyn FnMut(&[Vec<u8>]) -> RedisResult<Value>>;
pub struct Server {
    pub handler: Option<Handler>,
    pub log: Vec<Call>,
    pub latency: Option<Duration>,
    pub in_flight: usize,
    pub overlapped: bool,
    pub conns: usize,
    pub connect_error: bool,
}
static S: Global<Server> = Global::new();
pub fn server() -> &'static mut Server {
    S.get(|| Server { handler: None, log: vec![], latency: None, in_flight: 0, overlapped: false, conns: 0, connect_error: false })
}
pub fn io_error() -> RedisError { RedisError::from((ErrorKind::Io, "connection lost")) }

fn begin(conn: usize, args: Vec<Vec<u8>>) -> usize {
    let s = server();
    if s.in_flight > 0 { s.overlapped = true; }
    s.in_flight += 1;
    s.log.push(Call { args, conn, done: false });
    s.log.len() - 1
}
fn answer(k: usize) -> RedisResult<Value> {
    let s = server();
    let args = s.log[k].args.clone();
    match s.handler.take() {
        None => Ok(Value::Okay),
        Some(mut h) => {
            let r = h(&args);
            let s = server();
            if s.handler.is_none() { s.handler = Some(h); }
            r
        }
    }
}
fn finish<T: FromRedisValue>(r: RedisResult<Value>) -> RedisResult<T> {
    Ok(from_redis_value::<T>(r?.extract_error()?)?)
}
/// A command on its way; dropping it abandons the reply.
struct Flight(usize);
impl Drop for Flight { fn drop(&mut self) { let s = server(); s.in_flight -= 1; s.log[self.0].done = true; } }

pub trait ModelConn { fn conn(&self) -> usize; }
pub use ModelConn as ConnectionLike;

#[derive(Clone)]
pub struct Cmd(real::Cmd);
impl Default for Cmd { fn default() -> Self { Self::new() } }
impl Cmd {
    pub fn new() -> Cmd { Cmd(real::Cmd::new()) }
    pub fn arg<T: ToRedisArgs>(&mut self, a: T) -> &mut Cmd { self.0.arg(a); self }
    pub fn take(&mut self) -> Cmd { std::mem::take(self) }
    fn args(&self) -> Vec<Vec<u8>> {
        let mut v = vec![];
        for a in self.0.args_iter() { v.push(match a { Arg::Simple(b) => b.to_vec(), _ => b"?".to_vec() }); }
        v
    }
    pub async fn query_async<T: FromRedisValue>(&self, con: &mut impl ModelConn) -> RedisResult<T> {
        let k = begin(con.conn(), self.args());
        let f = Flight(k);
        let r = match server().latency {
            // the server acts on the command when it arrives; the reply takes time
            Some(d) => { let r = answer(k); symrt::time::SleepUntil::new(symrt::time::now() + d).await; r }
            None => answer(k),
        };
        drop(f);
        finish(r)
    }
    pub async fn exec_async(&self, con: &mut impl ModelConn) -> RedisResult<()> { self.query_async::<()>(con).await }
    pub fn query<T: FromRedisValue>(&self, con: &mut impl ModelConn) -> RedisResult<T> {
        let k = begin(con.conn(), self.args());
        let f = Flight(k);
        let r = answer(k);
        drop(f);
        finish(r)
    }
    pub fn exec(&self, con: &mut impl ModelConn) -> RedisResult<()> { self.query::<()>(con) }
}
pub fn cmd(name: &str) -> Cmd { let mut c = Cmd::new(); c.arg(name); c }

#[derive(Clone, Debug)]
pub struct Client(());
impl Client {
    pub fn open<T: Into<String>>(_: T) -> RedisResult<Client> { Ok(Client(())) }
}
fn connect() -> RedisResult<usize> {
    let s = server();
    if s.connect_error { return Err(io_error()); }
    s.conns += 1;
    Ok(s.conns)
}
pub mod aio {
    pub use super::ModelConn as ConnectionLike;
    #[derive(Clone)]
    pub struct ConnectionManager(usize);
    impl ConnectionManager { pub async fn new(_: super::Client) -> super::RedisResult<Self> { Ok(ConnectionManager(super::connect()?)) } }
    impl super::ModelConn for ConnectionManager { fn conn(&self) -> usize { self.0 } }
}
pub mod cluster {
    #[derive(Clone)]
    pub struct ClusterClient(());
    pub struct ClusterConnection(usize);
    impl ClusterClient {
        pub fn new<T>(_: Vec<T>) -> super::RedisResult<Self> { Ok(ClusterClient(())) }
        pub fn get_connection(&self) -> super::RedisResult<ClusterConnection> { Ok(ClusterConnection(super::connect()?)) }
    }
    impl super::ModelConn for ClusterConnection { fn conn(&self) -> usize { self.0 } }
}
