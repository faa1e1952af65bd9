use crate::sim::{self, Obj, WorldRef};
use crate::{Evented, Poll, PollOpt, Ready, Token};
use std::fmt;
use std::io::{self, Read, Write};
use std::net::{Shutdown, SocketAddr};
use std::sync::Arc;
use std::time::Duration;

struct Handle {
    world: WorldRef,
    obj: Obj,
}
impl Drop for Handle {
    fn drop(&mut self) {
        if let Ok(mut w) = self.world.lock() {
            w.close_obj(self.obj);
        }
    }
}
impl Handle {
    fn register(&self, poll: &Poll, t: Token, i: Ready) -> io::Result<()> {
        let mut w = self.world.lock().unwrap();
        w.poll_register(poll.id, self.obj, t.0, i)
    }
    fn deregister(&self, poll: &Poll) -> io::Result<()> {
        let mut w = self.world.lock().unwrap();
        w.poll_deregister(poll.id, self.obj)
    }
    fn sock(&self) -> sim::SockId {
        match self.obj {
            Obj::Sock(s) => s,
            Obj::Lis(_) => unreachable!(),
        }
    }
    fn lis(&self) -> sim::LisId {
        match self.obj {
            Obj::Lis(s) => s,
            Obj::Sock(_) => unreachable!(),
        }
    }
}

pub struct TcpStream {
    h: Arc<Handle>,
}
impl TcpStream {
    pub fn connect(addr: &SocketAddr) -> io::Result<TcpStream> {
        let world = sim::current();
        let id = {
            let mut w = world.lock().unwrap();
            let p = w.cur_proc;
            w.connect(p, *addr)?
        };
        Ok(TcpStream {
            h: Arc::new(Handle {
                world,
                obj: Obj::Sock(id),
            }),
        })
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.h.world.lock().unwrap().peer_addr(self.h.sock())
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        self.h.world.lock().unwrap().local_addr(self.h.sock())
    }
    pub fn try_clone(&self) -> io::Result<TcpStream> {
        Ok(TcpStream { h: self.h.clone() })
    }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        self.h.world.lock().unwrap().shutdown(self.h.sock(), how)
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_recv_buffer_size(&self, _: usize) -> io::Result<()> {
        Ok(())
    }
    pub fn recv_buffer_size(&self) -> io::Result<usize> {
        Ok(65536)
    }
    pub fn set_send_buffer_size(&self, _: usize) -> io::Result<()> {
        Ok(())
    }
    pub fn send_buffer_size(&self) -> io::Result<usize> {
        Ok(65536)
    }
    pub fn set_keepalive(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn keepalive(&self) -> io::Result<Option<Duration>> {
        Ok(None)
    }
    pub fn set_keepalive_ms(&self, _: Option<u32>) -> io::Result<()> {
        Ok(())
    }
    pub fn keepalive_ms(&self) -> io::Result<Option<u32>> {
        Ok(None)
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_only_v6(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn only_v6(&self) -> io::Result<bool> {
        Ok(false)
    }
    pub fn set_linger(&self, d: Option<Duration>) -> io::Result<()> {
        self.h
            .world
            .lock()
            .unwrap()
            .set_linger(self.h.sock(), d == Some(Duration::from_secs(0)));
        Ok(())
    }
    pub fn linger(&self) -> io::Result<Option<Duration>> {
        Ok(None)
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(self.h.world.lock().unwrap().take_error(self.h.sock()))
    }
    pub fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.h.world.lock().unwrap().peek(self.h.sock(), buf)
    }
}
impl Read for TcpStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        (&*self).read(buf)
    }
}
impl<'a> Read for &'a TcpStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.h.world.lock().unwrap().read(self.h.sock(), buf)
    }
}
impl Write for TcpStream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        (&*self).write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl<'a> Write for &'a TcpStream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.h.world.lock().unwrap().write(self.h.sock(), buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Evented for TcpStream {
    fn register(&self, p: &Poll, t: Token, i: Ready, _: PollOpt) -> io::Result<()> {
        self.h.register(p, t, i)
    }
    fn reregister(&self, p: &Poll, t: Token, i: Ready, _: PollOpt) -> io::Result<()> {
        self.h.register(p, t, i)
    }
    fn deregister(&self, p: &Poll) -> io::Result<()> {
        self.h.deregister(p)
    }
}
impl fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimTcpStream({:?})", self.h.obj)
    }
}

pub struct TcpListener {
    h: Arc<Handle>,
}
impl TcpListener {
    pub fn bind(addr: &SocketAddr) -> io::Result<TcpListener> {
        let world = sim::current();
        let id = {
            let mut w = world.lock().unwrap();
            let p = w.cur_proc;
            w.listen(p, *addr)?
        };
        Ok(TcpListener {
            h: Arc::new(Handle {
                world,
                obj: Obj::Lis(id),
            }),
        })
    }
    pub fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        let (s, a) = self.h.world.lock().unwrap().accept(self.h.lis())?;
        Ok((
            TcpStream {
                h: Arc::new(Handle {
                    world: self.h.world.clone(),
                    obj: Obj::Sock(s),
                }),
            },
            a,
        ))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.h.world.lock().unwrap().lis_addr(self.h.lis()))
    }
    pub fn try_clone(&self) -> io::Result<TcpListener> {
        Ok(TcpListener { h: self.h.clone() })
    }
    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn ttl(&self) -> io::Result<u32> {
        Ok(64)
    }
    pub fn set_only_v6(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn only_v6(&self) -> io::Result<bool> {
        Ok(false)
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
}
impl Evented for TcpListener {
    fn register(&self, p: &Poll, t: Token, i: Ready, _: PollOpt) -> io::Result<()> {
        self.h.register(p, t, i)
    }
    fn reregister(&self, p: &Poll, t: Token, i: Ready, _: PollOpt) -> io::Result<()> {
        self.h.register(p, t, i)
    }
    fn deregister(&self, p: &Poll) -> io::Result<()> {
        self.h.deregister(p)
    }
}
impl fmt::Debug for TcpListener {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimTcpListener({:?})", self.h.obj)
    }
}

/// htrpc uses no UDP: not simulated.
#[derive(Debug)]
pub struct UdpSocket {}
fn no_udp<T>() -> io::Result<T> {
    Err(io::Error::new(io::ErrorKind::Other, "UDP is not simulated"))
}
impl UdpSocket {
    pub fn bind(_: &SocketAddr) -> io::Result<UdpSocket> {
        no_udp()
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        no_udp()
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        no_udp()
    }
    pub fn send_to(&self, _: &[u8], _: &SocketAddr) -> io::Result<usize> {
        no_udp()
    }
    pub fn recv_from(&self, _: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        no_udp()
    }
}
impl Evented for UdpSocket {
    fn register(&self, _: &Poll, _: Token, _: Ready, _: PollOpt) -> io::Result<()> {
        no_udp()
    }
    fn reregister(&self, _: &Poll, _: Token, _: Ready, _: PollOpt) -> io::Result<()> {
        no_udp()
    }
    fn deregister(&self, _: &Poll) -> io::Result<()> {
        no_udp()
    }
}
