//! The services in front of a replica: calls that come one by one or at once,
//! fail, or are given up, and the log of the replica.
use crate::cluster::endorsements;
use crate::core::*;
use prost::bytes::Bytes;
use slog::Drain;
use slog_term::Seen;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use tcp_proto::runtime::endpoint::in_message::Msg;
use tcp_proto::runtime::endpoint::*;
use tcp_runtime::model::*;
use tcp_runtime::service::ApplicationService;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fail {
    No,
    Error,
    Panic,
    /// While the event is applied.
    Apply,
}
#[derive(Clone)]
struct Plan {
    logs: Vec<(u8, String)>,
    outs: Vec<(Bytes, Bytes)>,
    event: bool,
    fail: Fail,
    pauses: usize,
}

/// What the application saw and did; every call has an instant of its own.
#[derive(Default)]
struct Shared {
    plans: BTreeMap<u64, Plan>,
    processed: Vec<(u64, Option<(u64, u64)>)>,
    emitted: Vec<(u64, ActorCommand)>,
    logged: Vec<(u64, u8, String)>,
    failed: bool,
    stops: u32,
}
type Share = Arc<Mutex<Shared>>;

struct Script {
    context: Option<Box<dyn ActorContext>>,
    share: Share,
}
impl Script {
    fn log(&self, level: u8, text: &str) {
        let c = self.context.as_ref().expect("context");
        self.share.lock().unwrap().logged.push((c.instant(), level, text.to_string()));
        let l = c.logger();
        match level {
            0 => slog::crit!(l, "{}", text),
            1 => slog::error!(l, "{}", text; "key" => text.len()),
            2 => slog::warn!(l, "{}", text; "a" => "1", "b" => 2),
            _ => slog::info!(l, "entry {}", text),
        }
    }
    fn emit(&self, c: &ActorCommand) {
        let now = self.context.as_ref().expect("context").instant();
        self.share.lock().unwrap().emitted.push((now, c.clone()));
    }
}
fn pause() {
    #[cfg(feature = "tonic")]
    tokio::sim::pause();
}
impl Actor for Script {
    fn on_init(&mut self, context: Box<dyn ActorContext>) -> Result<(), ActorError> {
        self.context = Some(context);
        Ok(())
    }
    fn on_shutdown(&mut self) {
        self.share.lock().unwrap().stops += 1;
    }
    fn on_save_snapshot(&mut self) -> Result<Bytes, ActorError> {
        Ok(Bytes::new())
    }
    fn on_load_snapshot(&mut self, _snapshot: Bytes) -> Result<(), ActorError> {
        Ok(())
    }
    fn on_process_command(&mut self, command: Option<ActorCommand>) -> Result<CommandOutcome, ActorError> {
        let now = self.context.as_ref().expect("context").instant();
        let seen = command.as_ref().map(|c| (c.correlation_id, hash_bytes(&[&c.header[..], b"/", &c.payload[..]].concat())));
        let plan = {
            let mut s = self.share.lock().unwrap();
            s.processed.push((now, seen));
            command.as_ref().and_then(|c| s.plans.get(&c.correlation_id).cloned())
        };
        let Some(p) = plan else { return Ok(CommandOutcome::with_none()) };
        let corr = command.expect("command").correlation_id;
        for (l, t) in &p.logs {
            self.log(*l, t);
        }
        for _ in 0..p.pauses {
            pause();
        }
        match p.fail {
            Fail::Error => {
                self.share.lock().unwrap().failed = true;
                return Err(ActorError::Internal);
            }
            Fail::Panic => {
                self.share.lock().unwrap().failed = true;
                panic!("scripted panic");
            }
            _ => {}
        }
        let commands: Vec<ActorCommand> = p.outs.iter().map(|(h, b)| ActorCommand { correlation_id: corr, header: h.clone(), payload: b.clone() }).collect();
        for c in &commands {
            self.emit(c);
        }
        Ok(CommandOutcome { commands, event: p.event.then(|| ActorEvent::with_bytes(corr, Bytes::from_static(b"event"))) })
    }
    fn on_apply_event(&mut self, _context: ActorEventContext, event: ActorEvent) -> Result<EventOutcome, ActorError> {
        let corr = event.correlation_id;
        let fail = self.share.lock().unwrap().plans.get(&corr).map(|p| p.fail);
        self.log(3, &format!("apply {corr}"));
        if fail == Some(Fail::Apply) {
            self.share.lock().unwrap().failed = true;
            return Err(ActorError::Internal);
        }
        let c = ActorCommand { correlation_id: corr, header: Bytes::from_static(b"applied"), payload: Bytes::new() };
        self.emit(&c);
        Ok(EventOutcome::with_command(c))
    }
    fn get_reference_values(&self) -> oak_proto_rust::oak::attestation::v1::ReferenceValues {
        tcp_atomic_counter_service::actor::CounterActor::new().get_reference_values()
    }
}

/// What a record has to look like on the wire.
fn render(s: &Seen) -> LogMessage {
    use slog::Level::*;
    let severity = match s.level {
        Critical => LogSeverity::Critical,
        Error => LogSeverity::Error,
        Warning => LogSeverity::Warning,
        Info => LogSeverity::Info,
        Debug => LogSeverity::Debug,
        Trace => LogSeverity::Trace,
    };
    let file = s.file.rsplit('/').next().unwrap_or("");
    let pairs: String = s.pairs.iter().map(|(k, v)| format!("{k}: {v}, ")).collect();
    LogMessage { severity: severity.into(), message: format!("{:?} {} @ {} : {} / {} // {}", s.level, file, s.line, s.column, s.msg, pairs) }
}
fn level_of(l: u8) -> slog::Level {
    [slog::Level::Critical, slog::Level::Error, slog::Level::Warning, slog::Level::Info][l as usize]
}
fn text_of(l: u8, t: &str) -> String {
    if l >= 3 {
        format!("entry {t}")
    } else {
        t.to_string()
    }
}

/// A logger of the application's own.
struct Own(slog_term::Sink);
impl Drain for Own {
    type Ok = ();
    type Err = slog::Never;
    fn log(&self, r: &slog::Record, _v: &slog::OwnedKVList) -> Result<(), slog::Never> {
        self.0.lock().unwrap().push(Seen {
            level: r.level(),
            file: String::new(),
            line: 0,
            column: 0,
            msg: r.msg().to_string(),
            pairs: Vec::new(),
        });
        Ok(())
    }
}

#[derive(Clone)]
struct Call {
    at: u64,
    what: &'static str,
    msg: Option<InMessage>,
    /// What the application has to see of the call, if it sees it.
    seen: Option<Option<(u64, u64)>>,
    gone: bool,
    done: bool,
}

struct Front {
    share: Share,
    term: slog_term::Sink,
    own: bool,
    ephemeral: bool,
    now: u64,
    next: u64,
    started: bool,
    stopped: bool,
    calls: Vec<Call>,
    /// Log messages received, by the instant of the call they came with.
    logs: Vec<(u64, LogMessage)>,
    outs: Vec<(u64, ActorCommand)>,
    lost: u32,
    texts: u64,
}

impl Front {
    fn text(&mut self, ctx: &mut Ctx) -> String {
        self.texts += 1;
        let tail = ["", "plain", "a / b // c: d, ", "{} {0} %s %n", "zwei\nZeilen", "\u{1f980} \u{0}", "\"quoted\\\""][ctx.ch.pick(7)];
        let mut s = format!("#{} {tail}", self.texts);
        if ctx.ch.chance(20) {
            s.push_str(&"x".repeat(70_000));
        }
        s
    }
    fn bytes(&mut self, ctx: &mut Ctx) -> Bytes {
        let n = [3, 0, 1, 40, 300, 66_000][ctx.ch.weighted(&[6, 2, 1, 2, 1, 1])];
        let b = ctx.ch.pick(256) as u8;
        (0..n).map(|i| b.wrapping_add((i / 7) as u8)).collect::<Vec<u8>>().into()
    }
    fn call(&mut self, what: &'static str, msg: Option<Msg>) -> Call {
        self.now += 1;
        let seen = match &msg {
            Some(Msg::DeliverAppMessage(m)) => Some(Some((m.correlation_id, hash_bytes(&[&m.message_header[..], b"/", &m.message_payload[..]].concat())))),
            _ => Some(None),
        };
        Call { at: self.now, what, msg: msg.map(|m| InMessage { msg: Some(m) }), seen, gone: false, done: false }
    }
    fn start(&mut self, ctx: &mut Ctx) -> Call {
        self.started = true;
        self.call(
            "start",
            Some(Msg::StartReplica(StartReplicaRequest {
                is_leader: !self.ephemeral,
                replica_id_hint: 1 + ctx.ch.pick(3) as u64,
                raft_config: None,
                app_config: Bytes::new(),
                is_ephemeral: self.ephemeral,
                endorsements: Some(endorsements()),
            })),
        )
    }
    fn request(&mut self, ctx: &mut Ctx, may_fail: bool) -> Call {
        self.now += [0, 1, 40, 100, 100_000][ctx.ch.weighted(&[2, 1, 2, 4, 1])];
        match ctx.ch.weighted(&[4, 10, 2, 1, 1]) {
            0 => self.call("tick", None),
            1 => {
                let corr = self.next;
                self.next += 1;
                let mut p = Plan { logs: Vec::new(), outs: Vec::new(), event: ctx.ch.chance(400), fail: Fail::No, pauses: 0 };
                let much = ctx.ch.chance(5);
                for _ in 0..if much { [70, 300][ctx.ch.pick(2)] } else { [1, 0, 2, 7][ctx.ch.pick(4)] } {
                    let l = ctx.ch.pick(4) as u8;
                    p.logs.push((l, self.text(ctx)));
                }
                for _ in 0..if much { [0, 70, 300][ctx.ch.pick(3)] } else { [1, 0, 2, 5][ctx.ch.pick(4)] } {
                    p.outs.push((self.bytes(ctx), self.bytes(ctx)));
                }
                if ctx.ch.chance(300) {
                    p.pauses = 1 + ctx.ch.pick(3);
                    ctx.fault("slow application");
                }
                if may_fail && ctx.ch.chance(30) {
                    p.fail = [Fail::Error, Fail::Panic, Fail::Apply][ctx.ch.pick(3)];
                    p.event |= p.fail == Fail::Apply;
                    ctx.fault("application fails");
                }
                ctx.ev(|| format!("command {corr}: {} logs, {} messages, event {}, {:?}, {} pauses", p.logs.len(), p.outs.len(), p.event, p.fail, p.pauses));
                self.share.lock().unwrap().plans.insert(corr, p);
                let (h, b) = (self.bytes(ctx), self.bytes(ctx));
                self.call("command", Some(Msg::DeliverAppMessage(DeliverAppMessage { correlation_id: corr, message_header: h, message_payload: b })))
            }
            2 => self.call("state", Some(Msg::GetReplicaState(GetReplicaStateRequest {}))),
            3 => {
                ctx.fault("message without contents");
                let mut c = self.call("empty", None);
                c.msg = Some(InMessage { msg: None });
                c.seen = None;
                c
            }
            _ => self.call("lameduck", Some(Msg::EnterLameduckMode(EnterLameduckMode {}))),
        }
    }

    /// Takes an answer apart; which application messages and logs it has to have.
    fn answer(&mut self, ctx: &mut Ctx, i: usize, r: ReceiveMessageResponse) -> R {
        let c = self.calls[i].clone();
        self.calls[i].done = true;
        let (mut start, mut stop, mut state) = (0, 0, 0);
        let mut outs = Vec::new();
        let mut logs = Vec::new();
        for m in r.messages {
            match m.msg {
                Some(out_message::Msg::DeliverAppMessage(m)) => outs.push(ActorCommand { correlation_id: m.correlation_id, header: m.message_header, payload: m.message_payload }),
                Some(out_message::Msg::Log(l)) => logs.push(l),
                Some(out_message::Msg::StartReplica(_)) => start += 1,
                Some(out_message::Msg::StopReplica(_)) => stop += 1,
                Some(out_message::Msg::GetReplicaState(_)) => state += 1,
                _ => {}
            }
        }
        ctx.ev(|| format!("answer to {} at {}: {} messages, {} logs", c.what, c.at, outs.len(), logs.len()));
        let want = |k: &str| (c.what == k) as u32;
        let extra = self.lost > 0;
        ctx.check(start == want("start") && stop == want("stop") && state == want("state") || extra, "messages leave exactly once", || {
            format!("{} answered with {start} starts, {stop} stops and {state} states", c.what)
        })?;
        ctx.check(!self.own || logs.is_empty(), "logs appear only as configured", || format!("{} log messages left although a logger is configured", logs.len()))?;
        // What the application emitted during the call comes with its answer, after
        // what nobody was there to receive.
        let mine: Vec<ActorCommand> = self.share.lock().unwrap().emitted.iter().filter(|e| e.0 == c.at).map(|e| e.1.clone()).collect();
        let ok = outs.len() >= mine.len() && outs[outs.len() - mine.len()..] == mine[..] && (outs.len() == mine.len() || extra);
        ctx.check(ok, "messages leave exactly once", || format!("the application sent {} messages during {} at {}, of {} that came with its answer", mine.len(), c.what, c.at, outs.len()))?;
        if !mine.is_empty() {
            ctx.nontrivial = true;
            ctx.probe("application messages delivered");
        }
        self.outs.extend(outs.into_iter().map(|o| (c.at, o)));
        self.logs.extend(logs.into_iter().map(|l| (c.at, l)));
        Ok(())
    }

    /// What the application saw, against what was called.
    fn order(&mut self, ctx: &mut Ctx, ended: bool) -> R {
        let s = self.share.lock().unwrap();
        let mut seen = s.processed.iter().peekable();
        let mut bad = None;
        for c in &self.calls {
            let Some(w) = c.seen else { continue };
            match seen.peek() {
                Some(x) if x.0 == c.at && x.1 == w => {
                    seen.next();
                }
                x if c.done || ended && !c.gone && !s.failed => {
                    bad = Some(format!("{} at {} was not processed in turn, but {:?}", c.what, c.at, x.map(|x| x.0)));
                    break;
                }
                _ => {}
            }
        }
        if bad.is_none() {
            bad = seen.next().map(|x| format!("the application processed a call at {} twice, out of turn, or altered", x.0));
        }
        drop(s);
        match bad {
            Some(b) => ctx.fail("calls are processed once and in order", b),
            None => Ok(()),
        }
    }

    fn at_end(&mut self, ctx: &mut Ctx) -> R {
        self.order(ctx, true)?;
        let s = self.share.lock().unwrap();
        let complete = self.lost == 0 && !s.failed;
        let term = self.term.lock().unwrap().clone();
        // Messages of the application, over all answers.
        self.outs.sort_by_key(|o| o.0);
        let mut sent = s.emitted.iter().map(|e| &e.1);
        let dup = self.outs.iter().find(|o| !sent.by_ref().any(|e| *e == o.1));
        let missing = complete && self.outs.len() != s.emitted.len();
        self.logs.sort_by_key(|l| l.0);
        // Log records that the application made.
        let mut at = 0;
        let mut unseen = None;
        for (_, l, t) in &s.logged {
            let msg = text_of(*l, t);
            match term[at..].iter().position(|x| x.msg == msg && x.level == level_of(*l)) {
                Some(p) => at += p + 1,
                None => {
                    unseen = Some(msg);
                    break;
                }
            }
        }
        let texts: BTreeSet<String> = s.logged.iter().map(|(_, l, t)| text_of(*l, t)).collect();
        let twice = term.iter().filter(|x| texts.contains(&x.msg)).count() > s.logged.len();
        let failed = s.failed;
        let (dup, emitted) = (dup.map(|o| format!("{:?}", o.1).chars().take(80).collect::<String>()), s.emitted.len());
        drop(s);
        ctx.check(dup.is_none(), "messages leave exactly once", || format!("{} left twice, out of order or altered", dup.unwrap()))?;
        ctx.check(!missing, "messages leave exactly once", || format!("{} of {emitted} messages left", self.outs.len()))?;
        ctx.check(unseen.is_none(), "logs leave exactly once", || format!("record {:?} is not in the log", unseen.map(|s| s.chars().take(60).collect::<String>())))?;
        ctx.check(!twice, "logs leave exactly once", || "a record is twice in the log".into())?;
        if self.own {
            return Ok(());
        }
        let want: Vec<LogMessage> = term.iter().map(render).collect();
        let mut rest = want.iter();
        let odd = self.logs.iter().find(|l| !rest.by_ref().any(|w| *w == l.1));
        let odd = odd.map(|l| l.1.message.chars().take(160).collect::<String>());
        ctx.check(odd.is_none(), "logs leave exactly once", || format!("{:?} was not logged, is out of order or not what was logged", odd.unwrap()))?;
        ctx.check(!complete || want.len() == self.logs.len(), "logs leave exactly once", || format!("{} of {} records left", self.logs.len(), want.len()))?;
        if !self.logs.is_empty() {
            ctx.probe("logs delivered");
        }
        if failed {
            ctx.probe("failed application");
        }
        Ok(())
    }
}

fn front(ctx: &mut Ctx, own: bool) -> Front {
    Front {
        share: Default::default(),
        term: Default::default(),
        own,
        ephemeral: ctx.ch.chance(600),
        now: 1000,
        next: 1,
        started: false,
        stopped: false,
        calls: Vec::new(),
        logs: Vec::new(),
        outs: Vec::new(),
        lost: 0,
        texts: 0,
    }
}

/// The service that is called by one caller.
fn direct(ctx: &mut Ctx) -> R {
    let mut f = front(ctx, false);
    slog_term::capture(Some(f.term.clone()));
    let mut service = ApplicationService::new(Script { context: None, share: f.share.clone() });
    let steps = 5 + ctx.ch.pick(60);
    let stop_at = if ctx.ch.chance(300) { ctx.ch.pick(steps) } else { steps };
    for i in 0..=steps {
        let call = if !f.started {
            if ctx.ch.chance(200) {
                let mut c = f.call("tick", None);
                c.seen = None;
                c
            } else {
                f.start(ctx)
            }
        } else if i == steps && !f.stopped {
            // What a call without contents logged leaves with the next one.
            f.call("tick", None)
        } else if i > stop_at && !f.stopped {
            f.stopped = true;
            let mut c = f.call("stop", Some(Msg::StopReplica(StopReplicaRequest {})));
            c.seen = None;
            c
        } else if f.stopped {
            let mut c = f.call("tick", None);
            c.seen = None;
            c
        } else {
            f.request(ctx, true)
        };
        ctx.ev(|| format!("{} at {}", call.what, call.at));
        let request = ReceiveMessageRequest { instant: call.at, message: call.msg.clone() };
        f.calls.push(call);
        let r = catch_unwind(AssertUnwindSafe(|| service.receive_message(request)));
        let failed = f.share.lock().unwrap().failed;
        match r {
            Err(_) => {
                if !failed {
                    let p = crate::runner::last_panic();
                    return ctx.fail("calls are answered", format!("the service panicked: {p}"));
                }
                crate::runner::last_panic();
                ctx.ev(|| "the replica ended".into());
                break;
            }
            Ok(Err(s)) => {
                ctx.check(failed, "calls are answered", || format!("the call failed: {s:?}"))?;
                break;
            }
            Ok(Ok(r)) => {
                ctx.check(!failed, "a failed application ends the replica", || "a call in which the application failed was answered".into())?;
                let i = f.calls.len() - 1;
                f.answer(ctx, i, r)?;
                f.order(ctx, true)?;
            }
        }
    }
    f.at_end(ctx)?;
    sample(ctx, &f);
    Ok(())
}

fn sample(ctx: &mut Ctx, f: &Front) {
    let s = f.share.lock().unwrap();
    ctx.stats.sim_ms += f.now - 1000;
    let h = hash_bytes(format!("{} {} {} {} {}", s.processed.len(), s.emitted.len(), s.logged.len(), s.failed, f.lost).as_bytes());
    drop(s);
    ctx.state(h);
}

#[cfg(feature = "tonic")]
mod many {
    use super::*;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll, Waker};
    use tcp_proto::runtime::endpoint::endpoint_service_server::EndpointService as Server;
    use tcp_runtime::service::TonicApplicationService;

    type Answer = Result<tonic::Response<ReceiveMessageResponse>, tonic::Status>;
    type Pending = Pin<Box<dyn Future<Output = Answer>>>;

    fn text(p: Box<dyn std::any::Any + Send>) -> String {
        if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "a task failed".into()
        }
    }

    struct Many {
        f: Front,
        service: Option<Arc<TonicApplicationService>>,
        open: Vec<(usize, Pending)>,
        dead: bool,
    }
    impl Many {
        fn issue(&mut self, ctx: &mut Ctx, c: Call) -> R {
            ctx.ev(|| format!("{} at {}", c.what, c.at));
            let request = tonic::Request::new(ReceiveMessageRequest { instant: c.at, message: c.msg.clone() });
            let s = self.service.clone().expect("service");
            self.f.calls.push(c);
            self.open.push((self.f.calls.len() - 1, Box::pin(async move { s.receive_message(request).await })));
            self.poll(ctx, self.open.len() - 1)
        }
        fn poll(&mut self, ctx: &mut Ctx, k: usize) -> R {
            let mut cx = Context::from_waker(Waker::noop());
            let r = catch_unwind(AssertUnwindSafe(|| self.open[k].1.as_mut().poll(&mut cx)));
            let failed = self.f.share.lock().unwrap().failed;
            match r {
                Err(_) => {
                    let p = crate::runner::last_panic();
                    ctx.fail("calls are answered", format!("a call panicked: {p}"))
                }
                Ok(Poll::Pending) => Ok(()),
                Ok(Poll::Ready(Err(s))) => {
                    let (i, _) = self.open.remove(k);
                    let c = self.f.calls[i].clone();
                    ctx.ev(|| format!("{} at {} failed", c.what, c.at));
                    ctx.check(failed, "calls are answered", || format!("{} at {} failed: {s}", c.what, c.at))?;
                    self.dead = true;
                    Ok(())
                }
                Ok(Poll::Ready(Ok(r))) => {
                    let (i, _) = self.open.remove(k);
                    self.f.answer(ctx, i, r.into_inner())
                }
            }
        }
        fn drive(&mut self, ctx: &mut Ctx) -> R {
            tokio::sim::step_all();
            self.f.order(ctx, false)
        }
    }

    pub fn many(ctx: &mut Ctx) -> R {
        let own = ctx.ch.pick(4);
        let f = front(ctx, own > 1);
        let (share, term) = (f.share.clone(), f.term.clone());
        // Nobody logs, the remote logger, one of the application, or the one the
        // runtime offers to print.
        let logger = match own {
            0 | 1 => None,
            2 => Some(slog::Logger::root(slog::Fuse(Own(f.term.clone())), slog::o!())),
            _ => {
                slog_term::capture(Some(f.term.clone()));
                Some(tcp_runtime::logger::log::create_logger())
            }
        };
        let capture = if own == 2 { None } else { Some(term) };
        let service = TonicApplicationService::new(Default::default(), Default::default(), logger, move || {
            slog_term::capture(capture);
            Script { context: None, share }
        });
        let mut m = Many { f, service: Some(Arc::new(service)), open: Vec::new(), dead: false };
        let r = life(ctx, &mut m);
        // The end of the service; calls that are still open are given up.
        m.open.clear();
        let service = m.service.take();
        let left = catch_unwind(AssertUnwindSafe(|| drop(service)));
        let failed = m.f.share.lock().unwrap().failed;
        tokio::sim::end();
        r?;
        if let Err(p) = left {
            crate::runner::last_panic();
            ctx.check(failed, "calls are answered", || format!("the service ended badly: {}", text(p)))?;
        }
        m.f.at_end(ctx)?;
        sample(ctx, &m.f);
        Ok(())
    }

    fn life(ctx: &mut Ctx, m: &mut Many) -> R {
        let c = m.f.start(ctx);
        m.issue(ctx, c)?;
        let steps = 20 + ctx.ch.pick(150);
        let leave = [0, 30, 150][ctx.ch.pick(3)];
        let width = 1 + ctx.ch.pick(5);
        for _ in 0..steps {
            match ctx.ch.weighted(&[4, 4, 3]) {
                0 => m.drive(ctx)?,
                1 => {
                    if !m.open.is_empty() {
                        let k = ctx.ch.pick(m.open.len());
                        m.poll(ctx, k)?;
                    }
                }
                _ => {
                    if m.open.len() < width {
                        let c = m.f.request(ctx, true);
                        m.issue(ctx, c)?;
                    }
                }
            }
            if ctx.ch.chance(leave) && !m.open.is_empty() {
                let k = ctx.ch.pick(m.open.len());
                let (i, p) = m.open.remove(k);
                drop(p);
                ctx.fault("caller goes away");
                ctx.ev(|| format!("the caller of {} at {} goes away", m.f.calls[i].what, m.f.calls[i].at));
                m.f.calls[i].gone = true;
                m.f.lost += 1;
            }
        }
        // Every caller that waits gets an answer.
        for _ in 0..200 {
            if m.open.is_empty() {
                break;
            }
            m.drive(ctx)?;
            for k in (0..m.open.len()).rev() {
                m.poll(ctx, k)?;
            }
        }
        ctx.check(m.open.is_empty(), "calls are answered", || format!("{} calls are never answered", m.open.len()))?;
        let failed = m.f.share.lock().unwrap().failed;
        ctx.check(failed || !m.dead, "calls are answered", || "the service died".into())?;
        if !failed {
            let c = m.f.call("tick", None);
            m.issue(ctx, c)?;
            for _ in 0..20 {
                m.drive(ctx)?;
                if !m.open.is_empty() {
                    m.poll(ctx, 0)?;
                }
            }
            ctx.check(m.open.is_empty(), "calls are answered", || "a call after all others is not answered".into())?;
        }
        Ok(())
    }
}

pub fn service(ctx: &mut Ctx) -> R {
    #[cfg(feature = "tonic")]
    if ctx.ch.chance(650) {
        let r = many::many(ctx);
        slog_term::capture(None);
        return r;
    }
    let r = direct(ctx);
    slog_term::capture(None);
    r
}
