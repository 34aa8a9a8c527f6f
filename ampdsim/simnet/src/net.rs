//! Requests from a process to the simulated world. The world decides for every request when it
//! arrives, whether it is lost, served twice, answered with an error, and when its answer arrives.

use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

use crate::rt::{self, Nanos, Pid};

#[derive(Clone, Debug)]
pub struct Req {
    pub id: u64,
    pub pid: Pid,
    pub url: String,
    pub method: String,
    pub body: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum Reply {
    Ok(Vec<u8>),
    /// the server answered with an error
    Err { code: i32, message: String },
    /// no answer
    Lost(String),
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub out: Nanos,
    pub back: Nanos,
    /// the request never reaches the server; the caller notices after this time
    pub lose_request: Option<Nanos>,
    pub lose_reply: Option<Nanos>,
    pub twice: bool,
}

pub trait Server {
    fn plan(&mut self, r: &Req) -> Plan;
    fn serve(&mut self, r: &Req) -> Reply;
    /// the caller got this answer
    fn answered(&mut self, r: &Req, reply: &Reply);
}

thread_local! {
    static SERVER: RefCell<Option<Rc<RefCell<dyn Server>>>> = RefCell::new(None);
    static NEXT: RefCell<u64> = RefCell::new(0);
}

pub fn set_server(s: Option<Rc<RefCell<dyn Server>>>) {
    SERVER.with(|x| *x.borrow_mut() = s);
    NEXT.with(|n| *n.borrow_mut() = 0);
}

fn server() -> Option<Rc<RefCell<dyn Server>>> {
    SERVER.with(|x| x.borrow().clone())
}

#[derive(Default)]
struct Slot {
    reply: Option<Reply>,
    waker: Option<Waker>,
}

struct Wait {
    slot: Arc<Mutex<Slot>>,
}

impl Future for Wait {
    type Output = Reply;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Reply> {
        let mut s = self.slot.lock().unwrap();
        match s.reply.take() {
            Some(r) => Poll::Ready(r),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

fn put(slot: &Arc<Mutex<Slot>>, r: Reply) {
    let w = {
        let mut s = slot.lock().unwrap();
        s.reply = Some(r);
        s.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

pub async fn call(url: String, method: String, body: Vec<u8>) -> Reply {
    let slot = Arc::new(Mutex::new(Slot::default()));
    let req = {
        let id = NEXT.with(|n| {
            *n.borrow_mut() += 1;
            *n.borrow()
        });
        Req { id, pid: rt::pid(), url, method, body }
    };
    start(req.clone(), slot.clone());
    let r = Wait { slot }.await;
    if let Some(s) = server() {
        s.borrow_mut().answered(&req, &r);
    }
    r
}

fn start(req: Req, slot: Arc<Mutex<Slot>>) {
    let Some(s) = server() else {
        put(&slot, Reply::Lost("no network".into()));
        return;
    };
    let debt = rt::take_debt();
    let plan = s.borrow_mut().plan(&req);
    // the message travels on its own: it arrives even if its sender dies
    rt::spawn_in(rt::WORLD, async move {
        rt::sleep(debt + plan.out).await;
        if let Some(t) = plan.lose_request {
            rt::sleep(t).await;
            put(&slot, Reply::Lost("request timed out".into()));
            return;
        }
        let r = s.borrow_mut().serve(&req);
        if plan.twice {
            let _ = s.borrow_mut().serve(&req);
        }
        if let Some(t) = plan.lose_reply {
            rt::sleep(t).await;
            put(&slot, Reply::Lost("response timed out".into()));
            return;
        }
        rt::sleep(plan.back).await;
        put(&slot, r);
    });
}
