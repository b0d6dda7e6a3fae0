//! A server around the code under test: application, dispatch, handlers and receive buffers that
//! record everything that is asked of them.
use crate::util::*;
use std::sync::atomic::{AtomicPtr, Ordering};
use vt6::common::core::msg::*;
use vt6::common::core::*;
use vt6::server::*;

#[derive(Clone, PartialEq, Eq)]
pub enum Ev {
    /// A message reached the application's message handling.
    Handled(Vec<u8>, Vec<Vec<u8>>),
    /// A message reached the application's handshake handling.
    Shaken(Vec<u8>),
    /// A parse error was reported to the handshake (true) or message handler.
    BadInput(bool),
    Discard(Vec<u8>),
    /// 0 client, 1 stdin, 2 stdout
    Auth(u8, Vec<u8>),
    Sent(usize, Vec<u8>),
    /// Messages that do not fit, or that are sent on a connection that is not ready for them.
    TooLong(usize),
    BadSend(usize),
    Recv(Vec<u8>, Vec<u8>),
    Register(Ident),
    /// at or below (else strictly below), base
    Unregister(bool, Vec<u8>),
    HasClients(bool, Vec<u8>),
    Opened,
    Closed,
    IoError,
    /// A broadcast ran: its number, the connection.
    Ran(u8, u64),
    Note,
}

#[derive(Clone, PartialEq, Eq)]
pub struct Ident {
    pub id: Vec<u8>,
    pub screens: [Option<Vec<u8>>; 3],
}

impl Ident {
    pub fn plain(id: &[u8]) -> Ident {
        Ident { id: id.to_vec(), screens: [None, None, None] }
    }
    pub fn from(i: &ClientIdentity) -> Ident {
        let f = |s: Option<&str>| s.map(|s| s.as_bytes().to_vec());
        Ident { id: i.client_id().as_str().as_bytes().to_vec(), screens: [f(i.stdin_screen_id()), f(i.stdout_screen_id()), f(i.stderr_screen_id())] }
    }
    pub fn make(&self) -> ClientIdentity {
        let s = |b: &[u8]| std::str::from_utf8(b).expect("UTF-8").to_string();
        let id = s(&self.id);
        let mut i = ClientIdentity::new(&ClientID::parse(&id).expect("client ID"));
        if let Some(x) = &self.screens[0] {
            i = i.with_stdin(&s(x));
        }
        if let Some(x) = &self.screens[1] {
            i = i.with_stdout(&s(x));
        }
        if let Some(x) = &self.screens[2] {
            i = i.with_stderr(&s(x));
        }
        i
    }
}

pub struct Cred {
    pub kind: u8,
    pub secret: Vec<u8>,
    pub used: bool,
    /// clients
    pub ident: Ident,
}

pub type Conn = Connection<App, Disp>;

#[derive(Default)]
pub struct World {
    pub ev: Vec<Ev>,
    pub creds: Vec<Cred>,
    /// registered clients (not the credentials of the connections the harness sets up itself)
    pub regs: Vec<Vec<u8>>,
    /// secrets issued by register_client
    pub issued: Vec<Vec<u8>>,
    pub queue: Vec<Box<dyn Fn(&mut Conn) + Send + Sync>>,
    pub conns: Vec<Conn>,
    pub bufs: Vec<Buf>,
}

static CUR: AtomicPtr<World> = AtomicPtr::new(std::ptr::null_mut());

pub fn world() -> &'static mut World {
    unsafe { &mut *CUR.load(Ordering::Relaxed) }
}
/// The world in which everything happens from now on.
pub fn enter(w: &mut World) {
    CUR.store(w, Ordering::Relaxed)
}

#[derive(Clone, Debug)]
pub struct App;
#[derive(Clone)]
pub struct Disp;

#[derive(Debug)]
pub struct MConn(pub ClientIdentity);
impl MessageConnector for MConn {
    fn new(id: ClientIdentity) -> Self {
        MConn(id)
    }
    fn identity(&self) -> &ClientIdentity {
        &self.0
    }
}
#[derive(Debug)]
pub struct SConn(pub ScreenIdentity);
impl StdoutConnector for SConn {
    fn new(id: ScreenIdentity) -> Self {
        SConn(id)
    }
    fn receive(&mut self, buf: &[u8]) {
        world().ev.push(Ev::Recv(self.0.screen_id().as_bytes().to_vec(), buf.to_vec()))
    }
}

/// What the application does when it hears that a connection was closed.
pub static mut ON_CLOSED: Option<Box<dyn Fn()>> = None;

fn sel(s: &ClientSelector) -> (bool, Vec<u8>) {
    match s {
        ClientSelector::StrictlyBelow(x) => (false, x.as_str().as_bytes().to_vec()),
        ClientSelector::AtOrBelow(x) => (true, x.as_str().as_bytes().to_vec()),
    }
}
fn within(s: &(bool, Vec<u8>), id: &[u8]) -> bool {
    is_prefix(&s.1, id) && (s.0 || s.1.len() != id.len())
}

impl App {
    fn auth(&self, kind: u8, secret: &str) -> Option<Ident> {
        let w = world();
        w.ev.push(Ev::Auth(kind, secret.as_bytes().to_vec()));
        for c in &mut w.creds {
            if c.kind == kind && !c.used && c.secret == secret.as_bytes() {
                c.used = kind == 0;
                return Some(c.ident.clone());
            }
        }
        None
    }
}

impl Application for App {
    type MessageConnector = MConn;
    type StdoutConnector = SConn;
    type MessageHandler = Log<core::MessageHandler<Own>>;
    type HandshakeHandler = Log<core::HandshakeHandler<RejectHandler>>;

    fn notify(&self, n: &Notification) {
        world().ev.push(match n {
            Notification::IncomingBytesDiscarded(b) => Ev::Discard(b.to_vec()),
            Notification::ConnectionOpened => Ev::Opened,
            Notification::ConnectionClosed => Ev::Closed,
            Notification::ConnectionIOError(_) => Ev::IoError,
            #[allow(unreachable_patterns)]
            _ => Ev::Note,
        });
        if let (Notification::ConnectionClosed, Some(f)) = (n, unsafe { &ON_CLOSED }) {
            f()
        }
    }
    fn register_client(&self, i: ClientIdentity) -> ClientCredentials {
        let w = world();
        let id = Ident::from(&i);
        w.ev.push(Ev::Register(id.clone()));
        let c = ClientCredentials::generate();
        w.issued.push(c.secret().as_bytes().to_vec());
        w.regs.push(id.id.clone());
        w.creds.push(Cred { kind: 0, secret: c.secret().as_bytes().to_vec(), used: false, ident: id });
        c
    }
    fn unregister_clients(&self, s: ClientSelector) {
        let w = world();
        let s = sel(&s);
        w.ev.push(Ev::Unregister(s.0, s.1.clone()));
        w.regs.retain(|r| !within(&s, r));
        w.creds.retain(|c| c.kind != 0 || !within(&s, &c.ident.id));
    }
    fn has_clients(&self, s: ClientSelector) -> bool {
        let w = world();
        let s = sel(&s);
        w.ev.push(Ev::HasClients(s.0, s.1.clone()));
        let mut r = false;
        for x in &w.regs {
            r |= within(&s, x);
        }
        r
    }
    fn find_client(&self, id: ClientID<'_>) -> Option<ClientIdentity> {
        world().regs.iter().find(|r| &r[..] == id.as_str().as_bytes()).map(|r| Ident::plain(r).make())
    }
    fn authorize_client(&self, secret: &str) -> Option<ClientIdentity> {
        self.auth(0, secret).map(|i| i.make())
    }
    fn authorize_stdin(&self, secret: &str) -> Option<ScreenIdentity> {
        self.auth(1, secret).map(|i| ScreenIdentity::new(std::str::from_utf8(&i.id).unwrap()))
    }
    fn authorize_stdout(&self, secret: &str) -> Option<ScreenIdentity> {
        self.auth(2, secret).map(|i| ScreenIdentity::new(std::str::from_utf8(&i.id).unwrap()))
    }
}

impl Dispatch<App> for Disp {
    type ConnectionID = usize;
    fn application(&self) -> &App {
        &App
    }
    fn enqueue_broadcast(&self, action: Box<dyn Fn(&mut Conn) + Send + Sync>) {
        world().queue.push(action)
    }
    fn enqueue_message<M: EncodeMessage>(&self, conn: &mut Conn, msg: &M) {
        let w = world();
        let id = conn.id();
        if !conn.state().can_receive_messages() {
            w.ev.push(Ev::BadSend(id));
            return;
        }
        let mut b = [0u8; 1024];
        match msg.encode(&mut b) {
            Ok(n) => w.ev.push(Ev::Sent(id, b[..n].to_vec())),
            Err(_) => w.ev.push(Ev::TooLong(id)),
        }
    }
    fn enqueue_stdin(&self, conn: &mut Conn, _buf: &[u8]) {
        world().ev.push(Ev::BadSend(conn.id()))
    }
}

/// The outermost handler: records what arrives.
#[derive(Default)]
pub struct Log<N>(N);
/// The application's own handler: own1.ok (no reply), own1.bad (invalid), own1.say (a reply).
#[derive(Default)]
pub struct Own;

fn log(msg: &Message) -> Ev {
    Ev::Handled(msg.parsed_type().as_str().as_bytes().to_vec(), msg.arguments().map(|a| a.to_vec()).collect())
}

impl Handler<App> for Log<core::MessageHandler<Own>> {
    fn handle<D: Dispatch<App>>(&self, msg: &Message, conn: &mut Connection<App, D>) -> Result<(), HandlerError> {
        world().ev.push(log(msg));
        self.0.handle(msg, conn)
    }
    fn handle_error<D: Dispatch<App>>(&self, err: &ParseError, conn: &mut Connection<App, D>) {
        world().ev.push(Ev::BadInput(false));
        self.0.handle_error(err, conn)
    }
}
impl Handler<App> for Log<core::HandshakeHandler<RejectHandler>> {
    fn handle<D: Dispatch<App>>(&self, msg: &Message, conn: &mut Connection<App, D>) -> Result<(), HandlerError> {
        world().ev.push(Ev::Shaken(msg.parsed_type().as_str().as_bytes().to_vec()));
        self.0.handle(msg, conn)
    }
    fn handle_error<D: Dispatch<App>>(&self, err: &ParseError, conn: &mut Connection<App, D>) {
        world().ev.push(Ev::BadInput(true));
        self.0.handle_error(err, conn)
    }
}
impl MessageHandler<App> for Log<core::MessageHandler<Own>> {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> {
        self.0.get_supported_module_version(m)
    }
}
impl HandshakeHandler<App> for Log<core::HandshakeHandler<RejectHandler>> {}

pub struct Say;
impl EncodeMessage for Say {
    fn encode(&self, buf: &mut [u8]) -> Result<usize, BufferTooSmallError> {
        MessageFormatter::new(buf, "own1.said", 0).finalize()
    }
}

impl Handler<App> for Own {
    fn handle<D: Dispatch<App>>(&self, msg: &Message, conn: &mut Connection<App, D>) -> Result<(), HandlerError> {
        match msg.parsed_type().as_str() {
            "own1.ok" => Ok(()),
            "own1.bad" => Err(HandlerError::InvalidMessage),
            "own1.say" => {
                conn.enqueue_message(&Say);
                Ok(())
            }
            "own1.cast" => {
                // broadcasts, one for each argument
                for a in msg.arguments() {
                    let n = a[0];
                    conn.dispatch().enqueue_broadcast(Box::new(move |_| world().ev.push(Ev::Ran(n, 99))));
                }
                Ok(())
            }
            "own1.leave" => {
                conn.set_state(ConnectionState::Teardown);
                Ok(())
            }
            // what does not exist goes to the last handler of the chain
            _ => RejectHandler.handle(msg, conn),
        }
    }
    fn handle_error<D: Dispatch<App>>(&self, err: &ParseError, conn: &mut Connection<App, D>) {
        Handler::<App>::handle_error(&RejectHandler, err, conn)
    }
}
impl MessageHandler<App> for Own {
    fn get_supported_module_version(&self, m: &ModuleIdentifier<'_>) -> Option<u16> {
        match m.as_str() {
            "own1" => Some(7),
            _ => MessageHandler::<App>::get_supported_module_version(&RejectHandler, m),
        }
    }
}

impl core::MessageHandlerExt<App> for Own {}

#[derive(Default)]
pub struct Buf {
    pub data: Vec<u8>,
    pub pos: usize,
}
impl ReceiveBuffer for Buf {
    fn contents(&self) -> &[u8] {
        &self.data[self.pos..]
    }
    fn discard(&mut self, len: usize) {
        assert!(len <= self.data.len() - self.pos, "discards more than there is");
        stack::probe();
        self.pos += len;
    }
}

/// Stack use must not grow with the amount of input. Symbolically this is the executor's limit on
/// nested calls, natively the distance between stack addresses.
pub mod stack {
    #[cfg(feature = "sym")]
    pub fn start() {}
    #[cfg(feature = "sym")]
    pub fn probe() {}
    #[cfg(not(feature = "sym"))]
    use std::cell::Cell;
    #[cfg(not(feature = "sym"))]
    thread_local!(static FIRST: Cell<usize> = const { Cell::new(0) });
    #[cfg(not(feature = "sym"))]
    pub fn start() {
        FIRST.with(|f| f.set(0))
    }
    #[cfg(not(feature = "sym"))]
    #[inline(never)]
    pub fn probe() {
        let x = 0u8;
        let a = std::hint::black_box(&x) as *const u8 as usize;
        FIRST.with(|f| match f.get() {
            0 => f.set(a),
            b => assert!(a.abs_diff(b) < 64 << 10, "stack use grows with the input"),
        })
    }
}

#[derive(Clone, PartialEq, Eq)]
pub enum Mode {
    Handshake,
    Msgio(Ident),
    Stdin(Vec<u8>),
    Stdout(Vec<u8>),
    Teardown,
}

pub fn mode<D: Dispatch<App>>(c: &Connection<App, D>) -> Mode {
    match c.state() {
        ConnectionState::Handshake => Mode::Handshake,
        ConnectionState::Msgio(c) => Mode::Msgio(Ident::from(c.identity())),
        ConnectionState::Stdin(s) => Mode::Stdin(s.screen_id().as_bytes().to_vec()),
        ConnectionState::Stdout(c) => Mode::Stdout(c.0.screen_id().as_bytes().to_vec()),
        ConnectionState::Teardown => Mode::Teardown,
    }
}

impl World {
    pub fn new() -> Box<World> {
        Box::default()
    }
    /// A new connection in the given mode.
    pub fn connect(&mut self, m: Mode) -> usize {
        let i = self.conns.len();
        let mut c = Connection::new(Disp, i);
        let s = |b: &[u8]| ScreenIdentity::new(std::str::from_utf8(b).unwrap());
        match m {
            Mode::Handshake => {}
            Mode::Msgio(i) => c.set_state(ConnectionState::Msgio(MConn(i.make()))),
            Mode::Stdin(b) => c.set_state(ConnectionState::Stdin(s(&b))),
            Mode::Stdout(b) => c.set_state(ConnectionState::Stdout(SConn(s(&b)))),
            Mode::Teardown => c.set_state(ConnectionState::Teardown),
        }
        self.conns.push(c);
        self.bufs.push(Buf::default());
        i
    }
    pub fn allow(&mut self, kind: u8, secret: &[u8], ident: Ident) {
        self.creds.push(Cred { kind, secret: secret.to_vec(), used: false, ident })
    }
    /// One read: the bytes are appended to what is left in the receive buffer.
    pub fn feed(&mut self, i: usize, bytes: &[u8]) {
        enter(self);
        let w = world();
        w.bufs[i].data.extend_from_slice(bytes);
        stack::start();
        w.conns[i].handle_incoming(&mut w.bufs[i]);
        w.broadcasts();
    }
    pub fn broadcasts(&mut self) {
        let w = world();
        while !w.queue.is_empty() {
            let q = std::mem::take(&mut w.queue);
            for a in &q {
                for c in w.conns.iter_mut() {
                    a(c);
                }
            }
        }
    }
    pub fn mode(&self, i: usize) -> Mode {
        mode(&self.conns[i])
    }
    pub fn left(&self, i: usize) -> &[u8] {
        self.bufs[i].contents()
    }
    /// What was sent on connection `i`.
    pub fn sent(&self, i: usize) -> Vec<Vec<u8>> {
        self.ev.iter().filter_map(|e| match e {
            Ev::Sent(j, b) if *j == i => Some(b.clone()),
            _ => None,
        }).collect()
    }
    pub fn count(&self, f: impl Fn(&Ev) -> bool) -> usize {
        self.ev.iter().filter(|e| f(e)).count()
    }
    /// The code must never send on a connection that cannot take messages.
    pub fn no_bad_send(&self) {
        assert!(self.count(|e| matches!(e, Ev::BadSend(_))) == 0, "message sent in a state without messages");
    }
}
