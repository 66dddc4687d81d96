//! C03, C16: two endpoints over a simulated connection; a simulated executor with tasks.
use super::basic::*;
use super::bufio;
use crate::codecs::*;
use crate::core::{kind_of, Ctx, R};
use crate::schema::*;
use crate::simio::*;
use crate::{ensure, fail};
use bytecodec::io::{BufferedIo, IoDecodeExt, IoEncodeExt, ReadBuf, WriteBuf};
use bytecodec::{Decode, DecodeExt, Encode, ErrorKind};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// What one direction carries.
struct Flow {
    case: Case,
    want: Vec<Val>,
    /// the receiver wraps its decoder in `MaybeEos`
    maybe: bool,
}
fn flow(ctx: &Ctx) -> Flow {
    let d = [1, 2, 2, 3, 0][ctx.below(5)];
    let b = [20, 60, 400, 1500, 12_000, 80_000][ctx.weighted(&[100, 100, 60, 20, 3, 1])];
    let many = ctx.below(4) > 0;
    let sc = gen_schema(ctx, GenOpt { big: b, to_eos: !many, reusable: many, min1: true, ..GenOpt::enc(d) });
    let k = if sc.to_eos() || !sc.reusable() {
        1
    } else if sc.nodes() <= 3 && sc.min() <= 8 && b <= 60 {
        ctx.count(150, |ctx| ctx.below(6))
    } else {
        ctx.below(6)
    };
    let case = values(ctx, &sc, k, b);
    case.note(ctx);
    let want = case.norm();
    let maybe = case.self_delim && case.sc.reusable() && case.sc.min() > 0 && ctx.below(2) == 0;
    Flow { case, want, maybe }
}
impl Flow {
    fn decoder(&self, env: &Env) -> BoxDec {
        let d = dec(&self.case.sc, env);
        if self.maybe {
            Box::new(d.maybe_eos())
        } else {
            Box::new(d)
        }
    }
    fn len(&self) -> usize {
        self.case.data.len()
    }
}

/// The receiving half of an endpoint.
struct Rx {
    dec: BoxDec,
    env: Env,
    items: Vec<Val>,
    err: Option<ErrorKind>,
    /// keeps decoding behind the last expected item
    greedy: bool,
    k: usize,
}
impl Rx {
    fn new(ctx: &Ctx, f: &Flow) -> Self {
        let env = Env::new(ctx);
        Rx { dec: f.decoder(&env), env, items: vec![], err: None, greedy: f.maybe, k: f.want.len() }
    }
    fn wants(&self) -> bool {
        self.err.is_none() && (self.greedy || self.items.len() < self.k)
    }
    /// One step; true if something happened.
    fn step(&mut self, ctx: &Ctx, buf: &mut ReadBuf<Vec<u8>>) -> R<bool> {
        if !self.wants() {
            return Ok(false);
        }
        let before = buf.len();
        if !self.dec.is_idle() {
            let r = self.dec.decode_from_read_buf(buf);
            self.env.check()?;
            if let Err(e) = r {
                ctx.ev("rx-err", kind_of(&e) as u64, 0);
                self.err = Some(kind_of(&e));
                return Ok(true);
            }
        }
        let mut done = before != buf.len();
        if self.dec.is_idle() {
            match self.dec.finish_decoding() {
                Ok(v) => {
                    ctx.ev("rx-item", self.items.len() as u64, 0);
                    ctx.count_item();
                    self.items.push(v);
                }
                Err(e) => self.err = Some(kind_of(&e)),
            }
            done = true;
        }
        ctx.count_bytes(before.saturating_sub(buf.len()));
        Ok(done)
    }
    /// What has been received is a prefix of what was sent.
    fn check(&self, f: &Flow, sent: usize) -> R {
        for (i, v) in self.items.iter().enumerate() {
            ensure!(i < f.want.len(), "item-invented", "{} items received, {} were to be sent", self.items.len(), f.want.len());
            ensure!(*v == f.want[i], "item-wrong", "item {i} received is {}, sent was {}", crate::core::short(v), crate::core::short(&f.want[i]));
            ensure!(i < sent, "item-early", "item {i} received although only {sent} have been started");
        }
        Ok(())
    }
}

/// The sending half of an endpoint.
struct Tx {
    enc: PE,
    env: Env,
    next: usize,
    dead: bool,
}
impl Tx {
    fn new(ctx: &Ctx, f: &Flow) -> Self {
        let env = Env::new(ctx);
        Tx { enc: enc_codec(&f.case.sc, &env), env, next: 0, dead: false }
    }
    fn all_encoded(&self, f: &Flow) -> bool {
        self.next == f.want.len() && self.enc.is_idle()
    }
    fn start(&mut self, ctx: &Ctx, f: &Flow) -> R {
        if self.enc.is_idle() && self.next < f.want.len() {
            start_ok(&mut self.enc, f.case.vals[self.next].clone())?;
            ctx.ev("tx-start", self.next as u64, 0);
            self.next += 1;
        }
        Ok(())
    }
}

struct Node {
    io: BufferedIo<SimStream>,
    rx: Rx,
    tx: Tx,
    closed: bool,
    stalled: u32,
}
impl Node {
    fn io(&mut self, ctx: &Ctx, asyn: bool) -> R {
        let before = (self.io.read_buf_ref().len(), self.io.write_buf_ref().len());
        let ok = if asyn {
            match Pin::new(&mut self.io).execute_io_poll(&mut Context::from_waker(Waker::noop())) {
                Poll::Pending => true,
                Poll::Ready(r) => r.is_ok(),
            }
        } else {
            self.io.execute_io().is_ok()
        };
        ctx.ev("io", (self.io.read_buf_ref().len() - before.0) as u64 * 2 + u64::from(ok), self.io.write_buf_ref().len() as u64);
        Ok(())
    }
    fn app(&mut self, ctx: &Ctx, f_out: &Flow, what: usize) -> R {
        if what != 1 {
            self.rx.step(ctx, self.io.read_buf_mut())?;
        }
        if what != 0 && !self.tx.dead {
            self.tx.start(ctx, f_out)?;
            if !self.tx.enc.is_idle() {
                let r = self.tx.enc.encode_to_write_buf(self.io.write_buf_mut());
                self.tx.env.check()?;
                if let Err(e) = r {
                    ensure!(
                        self.io.write_buf_ref().stream_state().is_eos(),
                        "encode-fails",
                        "encoding into a connection in state {:?} fails with {:?}",
                        self.io.write_buf_ref().stream_state(),
                        kind_of(&e)
                    );
                    self.tx.dead = true;
                }
            }
        }
        Ok(())
    }
    fn flushed(&self, f_out: &Flow) -> bool {
        self.tx.all_encoded(f_out) && self.io.write_buf_ref().is_empty()
    }
}

fn small_cap(ctx: &Ctx, load: usize) -> usize {
    (1 + match ctx.weighted(&[16, 16, 32, 1]) {
        0 => ctx.below(3),
        1 => ctx.below(20),
        2 => ctx.size(200),
        _ => ctx.size(70_001),
    })
    .max(load / 250)
}

pub fn c03(ctx: &Ctx) -> R {
    let flows = [flow(ctx), flow(ctx)];
    let load = flows[0].len().max(flows[1].len());
    let delay = [0, 1, 3, 20][ctx.below(4)];
    let net = Net::new(ctx, small_cap(ctx, load), small_cap(ctx, load), Profile::swarm(ctx), delay);
    let mut nodes: Vec<Node> = (0..2)
        .map(|i| {
            let s = SimStream { net: net.clone(), out: i };
            let (r, w) = (small_cap(ctx, load), small_cap(ctx, load));
            ctx.note(|| format!("node {i}: buffers {r}/{w}"));
            Node { io: BufferedIo::new(s, r, w), rx: Rx::new(ctx, &flows[1 - i]), tx: Tx::new(ctx, &flows[i]), closed: false, stalled: 0 }
        })
        .collect();
    let asyn = ctx.below(3);
    let closes = [flows[0].case.sc.to_eos() || ctx.below(2) == 0, flows[1].case.sc.to_eos() || ctx.below(2) == 0];
    let cut_ok = flows.iter().all(|f| f.case.self_delim);
    let mut cut = false;
    let faulty_steps = ctx.below(60 + load.min(400));
    let cut_at = if cut_ok && ctx.chance(1, 4) { ctx.below(faulty_steps + 1) } else { usize::MAX };

    let mut step = 0usize;
    let bound = faulty_steps + 60 + 6 * (flows[0].len() + flows[1].len());
    loop {
        if step == faulty_steps {
            net.borrow_mut().stop_faults();
            ctx.ev("faults-stop", step as u64, 0);
            for n in &mut nodes {
                n.stalled = 0;
            }
        }
        if step == cut_at {
            // The connection is reset; what had arrived on either side stays readable.
            ctx.fault("connection-cut");
            cut = true;
            let mut n = net.borrow_mut();
            for dir in 0..2 {
                let keep = ctx.below(n.pipes[dir].in_flight() + 1);
                let lost = n.cut(dir, keep);
                ctx.ev("cut", dir as u64, lost as u64);
            }
        }
        if step < faulty_steps {
            let i = ctx.below(2);
            match ctx.weighted(&[8, 8, 6, 1, 1]) {
                0 | 1 if nodes[i].stalled > 0 => nodes[i].stalled -= 1,
                0 => {
                    let a = if asyn == 2 { ctx.below(2) == 1 } else { asyn == 1 };
                    nodes[i].io(ctx, a)?
                }
                1 => {
                    let what = ctx.below(3);
                    nodes[i].app(ctx, &flows[i], what)?
                }
                2 => {
                    let dt = 1 + ctx.draw(delay + 1);
                    ctx.tick(dt);
                    let _ = net.borrow_mut().advance(dt);
                }
                3 => {
                    ctx.fault("partition");
                    let mut n = net.borrow_mut();
                    n.partition_until = n.now + 1 + ctx.draw(40);
                }
                _ => {
                    ctx.fault("stalled-node");
                    nodes[i].stalled = 1 + ctx.below(12) as u32;
                }
            }
        } else {
            for i in 0..2 {
                nodes[i].io(ctx, asyn == 1)?;
                nodes[i].app(ctx, &flows[i], 2)?;
            }
            ctx.tick(1);
            let _ = net.borrow_mut().advance(1);
        }
        for i in 0..2 {
            if closes[i] && !nodes[i].closed && nodes[i].flushed(&flows[i]) {
                nodes[i].closed = true;
                net.borrow_mut().close(i);
                ctx.ev("close", i as u64, 0);
            }
            let peer = nodes[1 - i].tx.next;
            nodes[i].rx.check(&flows[1 - i], peer)?;
            if !cut {
                if let Some(e) = nodes[i].rx.err {
                    fail!("receive-fails", "receiving fails with {e:?} after {} of {} items, the connection is whole", nodes[i].rx.items.len(), flows[1 - i].want.len());
                }
            }
        }
        step += 1;
        if step > faulty_steps {
            let done = (0..2).all(|i| {
                let n = &nodes[i];
                if cut {
                    // Everything that arrived has been looked at, and the end has been seen.
                    n.rx.err.is_some() || !n.rx.wants() || (n.io.read_buf_ref().is_empty() && n.io.read_buf_ref().stream_state().is_eos())
                } else {
                    n.rx.items.len() == flows[1 - i].want.len()
                        && n.flushed(&flows[i])
                        && (!(n.rx.greedy && closes[1 - i]) || (n.io.read_buf_ref().is_empty() && n.io.read_buf_ref().stream_state().is_eos()))
                }
            });
            if done {
                break;
            }
            ensure!(
                step < bound,
                "no-progress",
                "{} steps after the faults stopped: received {}/{} and {}/{} items",
                step - faulty_steps,
                nodes[0].rx.items.len(),
                flows[1].want.len(),
                nodes[1].rx.items.len(),
                flows[0].want.len()
            );
        }
    }
    // What is there at the end.
    for i in 0..2 {
        let f = &flows[1 - i];
        let n = &mut nodes[i];
        for _ in 0..3 {
            n.io(ctx, asyn == 1)?;
            n.rx.step(ctx, n.io.read_buf_mut())?;
        }
        let peer = f.want.len();
        n.rx.check(f, peer)?;
        if cut {
            let arrived = net.borrow().pipes[1 - i].written;
            let whole = f.case.ends.iter().filter(|&&e| e <= arrived).count();
            let start = if whole == 0 { 0 } else { f.case.ends[whole - 1] };
            ensure!(
                n.rx.items.len() == whole,
                "items-at-cut",
                "{arrived} bytes with {whole} whole items arrived in front of the cut, {} items were received",
                n.rx.items.len()
            );
            if arrived > start {
                ctx.probe("cut-inside-item");
                ensure!(
                    n.rx.err == Some(ErrorKind::UnexpectedEos),
                    "cut-unreported",
                    "the connection is cut {} bytes into item {whole}, the receiver says {:?}",
                    arrived - start,
                    n.rx.err
                );
            } else if n.rx.greedy {
                ensure!(n.rx.err.is_none(), "clean-end", "the connection ends between items, the receiver says {:?}", n.rx.err);
            }
        } else {
            ensure!(n.rx.err.is_none(), "receive-fails", "receiving fails with {:?} behind the last item", n.rx.err);
            ensure!(n.rx.items.len() == f.want.len(), "item-missing", "{} of {} items", n.rx.items.len(), f.want.len());
        }
    }
    if nodes.iter().all(|n| n.rx.items.is_empty()) {
        ctx.probe("nothing-received");
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

/// A wake-up token: wakes a task only while the task's current waker is of this generation.
struct Token {
    task: usize,
    gen: u64,
    q: Arc<Mutex<Vec<(usize, u64)>>>,
}
impl Wake for Token {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.q.lock().expect("harness").push((self.task, self.gen));
    }
}

enum Conn {
    Io(BufferedIo<SimStream>),
    Parts { r: ReadBuf<Vec<u8>>, w: WriteBuf<Vec<u8>>, s: SimStream },
}
impl Conn {
    fn r(&mut self) -> &mut ReadBuf<Vec<u8>> {
        match self {
            Conn::Io(io) => io.read_buf_mut(),
            Conn::Parts { r, .. } => r,
        }
    }
    fn w(&mut self) -> &mut WriteBuf<Vec<u8>> {
        match self {
            Conn::Io(io) => io.write_buf_mut(),
            Conn::Parts { w, .. } => w,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Next {
    Sleep,
    Again,
    Done,
}
struct Task {
    ready: bool,
    gen: u64,
    waker: Waker,
    state: Next,
    name: &'static str,
}
struct Exec {
    tasks: Vec<Task>,
    q: Arc<Mutex<Vec<(usize, u64)>>>,
    migrate: u64,
}
impl Exec {
    fn token(&self, task: usize, gen: u64) -> Waker {
        Waker::from(Arc::new(Token { task, gen, q: self.q.clone() }))
    }
    fn add(&mut self, name: &'static str) {
        let w = self.token(self.tasks.len(), 0);
        self.tasks.push(Task { ready: true, gen: 0, waker: w, state: Next::Again, name });
    }
    fn notify(&mut self, t: usize) {
        if self.tasks[t].state != Next::Done {
            self.tasks[t].ready = true;
        }
    }
    fn drain(&mut self, ctx: &Ctx) {
        let woken: Vec<(usize, u64)> = std::mem::take(&mut *self.q.lock().expect("harness"));
        for (t, g) in woken {
            if self.tasks[t].gen == g {
                self.notify(t);
            } else {
                ctx.probe("stale-wake");
            }
        }
    }
}

struct AsyncNode {
    conn: Conn,
    rx: Rx,
    tx: Tx,
    closes: bool,
    closed: bool,
    /// the I/O task may use blocking-style calls with a timer
    sync_io: bool,
    /// the encoder task sleeps at every full buffer, also between items
    eager_sleep: bool,
}
const IO: usize = 0;
const ENC: usize = 1;
const DEC: usize = 2;

impl AsyncNode {
    fn poll_io(&mut self, ctx: &Ctx, net: &NetRef, me: usize, w: &Waker, f_out: &Flow) -> R<(Next, bool)> {
        let cx = &mut Context::from_waker(w);
        let before = self.conn.r().len();
        let mut timer = false;
        let out = match self.conn {
            Conn::Io(ref mut io) => {
                if self.sync_io && ctx.below(2) == 0 {
                    timer = true;
                    Poll::Ready(io.execute_io())
                } else {
                    Pin::new(io).execute_io_poll(cx)
                }
            }
            Conn::Parts { ref mut r, w: ref mut wb, ref mut s } => {
                let a = if self.sync_io && ctx.below(2) == 0 {
                    timer = true;
                    Poll::Ready(r.fill(&mut *s))
                } else {
                    r.poll_fill(Pin::new(&mut *s), cx)
                };
                let b = if self.sync_io && ctx.below(2) == 0 {
                    timer = true;
                    Poll::Ready(wb.flush(&mut *s))
                } else {
                    wb.poll_flush(Pin::new(&mut *s), cx)
                };
                match (a, b) {
                    (Poll::Pending, Poll::Pending) => Poll::Pending,
                    (Poll::Ready(Err(e)), _) | (_, Poll::Ready(Err(e))) => Poll::Ready(Err(e)),
                    _ => Poll::Ready(Ok(())),
                }
            }
        };
        let after = self.conn.r().len();
        let (rs, ws) = (self.conn.r().stream_state(), self.conn.w().stream_state());
        let (room, left) = (self.conn.r().room(), self.conn.w().len());
        ctx.ev("poll-io", (after - before) as u64, left as u64 * 4 + u64::from(out.is_pending()));
        if self.closes && !self.closed && self.tx.all_encoded(f_out) && left == 0 {
            self.closed = true;
            net.borrow_mut().close(me);
            ctx.ev("close", me as u64, 0);
        }
        let fresh = after > 0 || rs.is_eos();
        let next = match out {
            Poll::Pending => Next::Sleep,
            Poll::Ready(Err(_)) => {
                timer = true;
                Next::Sleep
            }
            Poll::Ready(Ok(())) => {
                // Asleep only if each direction is registered, at its end, or waits for a task that will tell us.
                let r_rests = rs.would_block() || rs.is_eos() || room == 0;
                let w_rests = left == 0 || ws.would_block() || ws.is_eos();
                if r_rests && w_rests {
                    Next::Sleep
                } else {
                    Next::Again
                }
            }
        };
        if timer {
            let at = { net.borrow().now } + 1 + ctx.draw(4);
            net.borrow_mut().timer(at, w.clone());
        }
        Ok((next, fresh))
    }
    /// Returns what the task does next, and whether the I/O task has to be told.
    fn poll_enc(&mut self, ctx: &Ctx, w: &Waker, f_out: &Flow) -> R<(Next, bool)> {
        let cx = &mut Context::from_waker(w);
        self.tx.start(ctx, f_out)?;
        if self.tx.all_encoded(f_out) {
            return Ok((Next::Done, true));
        }
        let before = self.conn.w().len();
        let r = self.tx.enc.encode_to_write_buf_async(self.conn.w(), cx);
        self.tx.env.check()?;
        if let Err(e) = r {
            fail!("encode-fails", "encoding into the connection fails with {:?} in state {:?}", kind_of(&e), self.conn.w().stream_state());
        }
        let added = self.conn.w().len() - before;
        let room = self.conn.w().room();
        ctx.ev("poll-enc", added as u64, room as u64);
        ctx.count_bytes(added);
        let next = if self.tx.all_encoded(f_out) {
            Next::Done
        } else if room == 0 && (self.eager_sleep || !self.tx.enc.is_idle()) {
            // Sleeps on the write buffer alone.
            ctx.probe("encoder-waits");
            Next::Sleep
        } else {
            Next::Again
        };
        Ok((next, self.conn.w().len() > 0 || next == Next::Done))
    }
    fn poll_dec(&mut self, ctx: &Ctx) -> R<(Next, bool)> {
        if !self.rx.wants() {
            return Ok((Next::Done, false));
        }
        let before = self.conn.r().len();
        let moved = match self.conn {
            Conn::Io(ref mut io) => self.rx.step(ctx, io.read_buf_mut())?,
            Conn::Parts { ref mut r, .. } => self.rx.step(ctx, r)?,
        };
        let after = self.conn.r().len();
        let next = if !self.rx.wants() {
            Next::Done
        } else if moved {
            Next::Again
        } else {
            Next::Sleep
        };
        Ok((next, before != after))
    }
}

fn c16_tasks(ctx: &Ctx) -> R {
    let flows = [flow(ctx), flow(ctx)];
    let load = flows[0].len().max(flows[1].len());
    let delay = [0, 1, 3, 20][ctx.below(4)];
    let net = Net::new(ctx, small_cap(ctx, load), small_cap(ctx, load), Profile::swarm(ctx), delay);
    let mut ex = Exec { tasks: vec![], q: Arc::new(Mutex::new(vec![])), migrate: [0, 0, 2, 8][ctx.below(4)] };
    let mut nodes = vec![];
    for i in 0..2 {
        let s = SimStream { net: net.clone(), out: i };
        let (r, w) = (small_cap(ctx, load), small_cap(ctx, load));
        ctx.note(|| format!("node {i}: buffers {r}/{w}"));
        let conn = if ctx.below(2) == 0 {
            Conn::Io(BufferedIo::new(s, r, w))
        } else {
            Conn::Parts { r: ReadBuf::new(vec![0; r]), w: WriteBuf::new(vec![0; w]), s }
        };
        nodes.push(AsyncNode {
            conn,
            rx: Rx::new(ctx, &flows[1 - i]),
            tx: Tx::new(ctx, &flows[i]),
            closes: flows[i].case.sc.to_eos() || ctx.below(2) == 0,
            closed: false,
            sync_io: ctx.chance(1, 3),
            eager_sleep: ctx.chance(1, 2),
        });
        ex.add("io");
        ex.add("encoder");
        ex.add("decoder");
    }
    let spurious = if ctx.chance(1, 3) { 60 } else { 0 };
    let faulty_steps = ctx.below(100 + load.min(600));
    let bound = faulty_steps + 600 + 40 * (flows[0].len() + flows[1].len());
    let mut step = 0;
    loop {
        step += 1;
        if step == faulty_steps {
            net.borrow_mut().stop_faults();
            ctx.ev("faults-stop", step as u64, 0);
        }
        let faulty = step < faulty_steps;
        if faulty && ctx.chance(1, 60) {
            ctx.fault("partition");
            let mut n = net.borrow_mut();
            n.partition_until = n.now + 1 + ctx.draw(40);
        }
        let done = |n: &AsyncNode, f: &Flow| n.rx.items.len() == f.want.len();
        if done(&nodes[0], &flows[1]) && done(&nodes[1], &flows[0]) {
            break;
        }
        let ready: Vec<usize> = (0..6).filter(|&t| ex.tasks[t].ready).collect();
        if ready.is_empty() || (faulty && ctx.chance(1, 5)) {
            // Time passes.
            let next = net.borrow().next_event();
            let now = net.borrow().now;
            let dt = match next {
                Some(t) => t.saturating_sub(now).max(u64::from(t <= now && ready.is_empty() && now == t)),
                None if ready.is_empty() => {
                    let who: Vec<String> = ex
                        .tasks
                        .iter()
                        .enumerate()
                        .filter(|(_, t)| t.state != Next::Done)
                        .map(|(i, t)| format!("{}{}", t.name, i / 3))
                        .collect();
                    fail!(
                        "lost-wakeup",
                        "every task sleeps ({}) and nothing will wake one: received {}/{} and {}/{} items; write buffers hold {} and {} bytes",
                        who.join(", "),
                        nodes[0].rx.items.len(),
                        flows[1].want.len(),
                        nodes[1].rx.items.len(),
                        flows[0].want.len(),
                        nodes[0].conn.w().len(),
                        nodes[1].conn.w().len()
                    );
                }
                None => 1,
            };
            ctx.tick(dt);
            let woken = net.borrow_mut().advance(dt);
            for w in woken {
                w.wake();
            }
            ex.drain(ctx);
        } else {
            let t = if spurious > 0 && faulty && ctx.chance(1, spurious) {
                let t = ctx.below(6);
                if ex.tasks[t].state == Next::Done {
                    ready[0]
                } else {
                    ctx.fault("spurious-poll");
                    t
                }
            } else {
                ready[ctx.below(ready.len())]
            };
            if ex.migrate > 0 && ctx.draw(16) >= 16 - ex.migrate {
                ctx.fault("waker-migrates");
                let g = ex.tasks[t].gen + 1;
                ex.tasks[t].gen = g;
                ex.tasks[t].waker = ex.token(t, g);
            }
            ex.tasks[t].ready = false;
            let (i, kind) = (t / 3, t % 3);
            let w = ex.tasks[t].waker.clone();
            let n = &mut nodes[i];
            let base = i * 3;
            let (next, tell) = match kind {
                IO => n.poll_io(ctx, &net, i, &w, &flows[i])?,
                ENC => n.poll_enc(ctx, &w, &flows[i])?,
                _ => n.poll_dec(ctx)?,
            };
            ctx.ev("task", t as u64, next as u64);
            ex.tasks[t].state = next;
            if next == Next::Again {
                ex.tasks[t].ready = true;
            }
            if tell {
                match kind {
                    IO => ex.notify(base + DEC),
                    _ => ex.notify(base + IO),
                }
            }
            ex.drain(ctx);
        }
        for i in 0..2 {
            let peer = nodes[1 - i].tx.next;
            nodes[i].rx.check(&flows[1 - i], peer)?;
            if let Some(e) = nodes[i].rx.err {
                fail!("receive-fails", "receiving fails with {e:?} after {} of {} items", nodes[i].rx.items.len(), flows[1 - i].want.len());
            }
        }
        ensure!(
            step < bound,
            "no-progress",
            "{} steps after the faults stopped: received {}/{} and {}/{} items",
            step - faulty_steps,
            nodes[0].rx.items.len(),
            flows[1].want.len(),
            nodes[1].rx.items.len(),
            flows[0].want.len()
        );
    }
    Ok(())
}

pub fn c16(ctx: &Ctx) -> R {
    if ctx.below(4) < 3 {
        c16_tasks(ctx)
    } else {
        bufio::c16_buffers(ctx)
    }
}
