//! A drop-in replacement of mio 0.6 whose sockets and readiness live in a simulated kernel.
//! The API follows mio 0.6; the kernel is in `sim`.
use std::fmt;
use std::io;
use std::ops;
use std::time::Duration;

pub mod net;
pub mod sim;

pub mod event {
    pub use super::{Event, Evented, Events};
}
pub mod tcp {
    pub use super::net::{TcpListener, TcpStream};
    pub use std::net::Shutdown;
}
pub mod udp {
    pub use super::net::UdpSocket;
}

pub fn would_block() -> io::Error {
    io::ErrorKind::WouldBlock.into()
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Token(pub usize);
impl From<usize> for Token {
    fn from(v: usize) -> Token {
        Token(v)
    }
}
impl From<Token> for usize {
    fn from(v: Token) -> usize {
        v.0
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Default, Debug)]
pub struct Ready(usize);
impl Ready {
    pub fn empty() -> Ready {
        Ready(0)
    }
    pub fn none() -> Ready {
        Ready(0)
    }
    pub fn readable() -> Ready {
        Ready(1)
    }
    pub fn writable() -> Ready {
        Ready(2)
    }
    pub fn all() -> Ready {
        Ready(3)
    }
    pub fn is_empty(&self) -> bool {
        self.0 == 0
    }
    pub fn is_readable(&self) -> bool {
        self.0 & 1 != 0
    }
    pub fn is_writable(&self) -> bool {
        self.0 & 2 != 0
    }
    pub fn insert(&mut self, o: Ready) {
        self.0 |= o.0
    }
    pub fn remove(&mut self, o: Ready) {
        self.0 &= !o.0
    }
    pub fn contains(&self, o: Ready) -> bool {
        self.0 & o.0 == o.0
    }
}
impl ops::BitOr for Ready {
    type Output = Ready;
    fn bitor(self, o: Ready) -> Ready {
        Ready(self.0 | o.0)
    }
}
impl ops::BitOrAssign for Ready {
    fn bitor_assign(&mut self, o: Ready) {
        self.0 |= o.0
    }
}
impl ops::BitAnd for Ready {
    type Output = Ready;
    fn bitand(self, o: Ready) -> Ready {
        Ready(self.0 & o.0)
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct PollOpt(usize);
impl PollOpt {
    pub fn empty() -> PollOpt {
        PollOpt(0)
    }
    pub fn edge() -> PollOpt {
        PollOpt(1)
    }
    pub fn level() -> PollOpt {
        PollOpt(2)
    }
    pub fn oneshot() -> PollOpt {
        PollOpt(4)
    }
    pub fn is_edge(&self) -> bool {
        self.0 & 1 != 0
    }
    pub fn is_level(&self) -> bool {
        self.0 & 2 != 0
    }
    pub fn is_oneshot(&self) -> bool {
        self.0 & 4 != 0
    }
}
impl ops::BitOr for PollOpt {
    type Output = PollOpt;
    fn bitor(self, o: PollOpt) -> PollOpt {
        PollOpt(self.0 | o.0)
    }
}

pub trait Evented {
    fn register(&self, poll: &Poll, token: Token, interest: Ready, opts: PollOpt)
        -> io::Result<()>;
    fn reregister(
        &self,
        poll: &Poll,
        token: Token,
        interest: Ready,
        opts: PollOpt,
    ) -> io::Result<()>;
    fn deregister(&self, poll: &Poll) -> io::Result<()>;
}
impl Evented for Box<dyn Evented> {
    fn register(&self, p: &Poll, t: Token, i: Ready, o: PollOpt) -> io::Result<()> {
        (**self).register(p, t, i, o)
    }
    fn reregister(&self, p: &Poll, t: Token, i: Ready, o: PollOpt) -> io::Result<()> {
        (**self).reregister(p, t, i, o)
    }
    fn deregister(&self, p: &Poll) -> io::Result<()> {
        (**self).deregister(p)
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Event {
    kind: Ready,
    token: Token,
}
impl Event {
    pub fn new(kind: Ready, token: Token) -> Event {
        Event { kind, token }
    }
    pub fn readiness(&self) -> Ready {
        self.kind
    }
    pub fn kind(&self) -> Ready {
        self.kind
    }
    pub fn token(&self) -> Token {
        self.token
    }
}

#[derive(Debug)]
pub struct Events {
    inner: Vec<Event>,
    cap: usize,
}
impl Events {
    pub fn with_capacity(cap: usize) -> Events {
        Events {
            inner: Vec::new(),
            cap: cap.max(1),
        }
    }
    pub fn get(&self, i: usize) -> Option<Event> {
        self.inner.get(i).cloned()
    }
    pub fn len(&self) -> usize {
        self.inner.len()
    }
    pub fn capacity(&self) -> usize {
        self.cap
    }
    pub fn is_empty(&self) -> bool {
        self.inner.is_empty()
    }
    pub fn clear(&mut self) {
        self.inner.clear()
    }
    pub fn iter(&self) -> std::iter::Cloned<std::slice::Iter<'_, Event>> {
        self.inner.iter().cloned()
    }
}

/// A simulated epoll instance.
pub struct Poll {
    pub(crate) world: sim::WorldRef,
    pub(crate) id: sim::PollId,
}
impl Poll {
    pub fn new() -> io::Result<Poll> {
        let world = sim::current();
        let id = world.lock().unwrap().poll_new();
        Ok(Poll { world, id })
    }
    pub fn register<E: ?Sized + Evented>(
        &self,
        h: &E,
        token: Token,
        interest: Ready,
        opts: PollOpt,
    ) -> io::Result<()> {
        h.register(self, token, interest, opts)
    }
    pub fn reregister<E: ?Sized + Evented>(
        &self,
        h: &E,
        token: Token,
        interest: Ready,
        opts: PollOpt,
    ) -> io::Result<()> {
        h.reregister(self, token, interest, opts)
    }
    pub fn deregister<E: ?Sized + Evented>(&self, h: &E) -> io::Result<()> {
        h.deregister(self)
    }
    /// Never blocks: the simulator only runs a poller that has something to do.
    pub fn poll(&self, events: &mut Events, _timeout: Option<Duration>) -> io::Result<usize> {
        events.inner.clear();
        let cap = events.cap;
        self.world
            .lock()
            .unwrap()
            .poll_wait(self.id, &mut events.inner, cap);
        Ok(events.inner.len())
    }
    /// Simulator accessor: is any armed registration ready?
    pub fn sim_has_events(&self) -> bool {
        self.world.lock().unwrap().poll_has_events(self.id)
    }
}
impl fmt::Debug for Poll {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Poll({:?})", self.id)
    }
}
