//! Builders which record every call made to them, and can refuse any call.

use std::{cell::RefCell, fmt, marker::PhantomData, panic::{catch_unwind, AssertUnwindSafe}};

use triangulate::{FanBuilder, FanFormat, ListBuilder, ListFormat, PolygonList, TrapezoidationError, Trapezoidation, TriangleWinding, TriangulationError};

/// The error raised by the `k`-th builder call
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Injected(pub u32);

impl fmt::Display for Injected {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "injected error {}", self.0)
    }
}

impl std::error::Error for Injected { }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Res {
    Ok,
    Err(u32),
    NoVertices,
    Short(usize),
    TrapezoidationInternal,
    TriangulationInternal,
    Other,
    WrongOutput,
    Panic,
    Hang,
    Crash,
}

impl Res {
    pub fn text(self) -> String {
        match self {
            Res::Ok => "ok".into(),
            Res::Err(k) => format!("e{k}"),
            Res::NoVertices => "novertices".into(),
            Res::Short(n) => format!("short{n}"),
            Res::TrapezoidationInternal => "trapezoidation-internal".into(),
            Res::TriangulationInternal => "triangulation-internal".into(),
            Res::Other => "other".into(),
            Res::WrongOutput => "wrong-output".into(),
            Res::Panic => "panic".into(),
            Res::Hang => "hang".into(),
            Res::Crash => "crash".into(),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Op {
    Initialize,
    NewFan,
    ExtendFan,
    InitializeList,
    AddTriangle,
    Build,
    Fail,
    Trapezoidize,
    Return,
}

impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Initialize => "init",
            Op::NewFan => "fan",
            Op::ExtendFan => "ext",
            Op::InitializeList => "linit",
            Op::AddTriangle => "tri",
            Op::Build => "build",
            Op::Fail => "fail",
            Op::Trapezoidize => "trap",
            Op::Return => "ret",
        }
    }
}

/// Vertex ids are 1-based; 0 stands for an index the polygon list does not contain
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Event {
    pub op: Op,
    pub v: [u32; 3],
    pub res: Res,
}

/// Added to the number of the call at which a builder panics instead of returning an error
pub const PANIC_AT: usize = 1 << 40;

pub struct Log {
    pub events: Vec<Event>,
    /// Number of builder calls which can be refused
    calls: usize,
    fault: Option<usize>,
    limit: usize,
    runaway: bool,
    /// Told the number of a call which is about to be made, and every event
    watch: Option<&'static dyn Watch>,
}

/// Follows a run from inside its builder
pub trait Watch {
    fn before(&self, call: usize);
    fn event(&self, event: Event);
}

impl Log {
    pub fn new(fault: Option<usize>, limit: usize) -> Self {
        Self { events: Vec::new(), calls: 0, fault, limit, runaway: false, watch: None }
    }

    fn push(&mut self, event: Event) {
        self.events.push(event);
        if let Some(w) = self.watch {
            w.event(event);
        }
    }

    fn call(&mut self, op: Op, v: [u32; 3]) -> Result<(), Injected> {
        if self.events.len() > self.limit {
            self.runaway = true;
            panic!("too many builder calls");
        }
        let k = self.calls;
        self.calls += 1;
        let res = if self.fault == Some(k) { Res::Err(k as u32) } else if self.fault == Some(PANIC_AT + k) { Res::Panic } else { Res::Ok };
        self.push(Event { op, v, res });
        if res == Res::Panic {
            panic!("the builder panics");
        }
        match res {
            Res::Ok => Ok(()),
            _ => Err(Injected(k as u32)),
        }
    }
}

pub fn classify(e: &TriangulationError<Injected>) -> Res {
    match e {
        TriangulationError::FanBuilder(Injected(k)) => Res::Err(*k),
        TriangulationError::NoVertices => Res::NoVertices,
        TriangulationError::TrapezoidationError(e) => classify_trapezoidation(e),
        TriangulationError::InternalError(_) => Res::TriangulationInternal,
        _ => Res::Other,
    }
}

pub fn classify_trapezoidation(e: &TrapezoidationError) -> Res {
    match e {
        TrapezoidationError::NotEnoughVertices(n) => Res::Short(*n),
        TrapezoidationError::InternalError(_) => Res::TrapezoidationInternal,
        _ => Res::Other,
    }
}

pub const TOKEN: u64 = 0x5EED_CAFE;

pub struct Recorder<'m, 'p, P: PolygonList<'p> + ?Sized, const CW: bool> {
    log: &'m RefCell<Log>,
    id: &'m dyn Fn(&P::Index) -> u32,
    _p: PhantomData<&'p P>,
}

impl<'m, 'p, P: PolygonList<'p> + ?Sized, const CW: bool> Recorder<'m, 'p, P, CW> {
    pub fn new(log: &'m RefCell<Log>, id: &'m dyn Fn(&P::Index) -> u32) -> Self {
        Self { log, id, _p: PhantomData }
    }

    fn call(&self, op: Op, v: [u32; 3]) -> Result<(), Injected> {
        let (k, watch) = { let log = self.log.borrow(); (log.calls, log.watch) };
        if let Some(w) = watch {
            w.before(k);
        }
        self.log.borrow_mut().call(op, v)
    }
}

impl<'m, 'p, P: PolygonList<'p> + ?Sized, const CW: bool> FanFormat<'p, P> for Recorder<'m, 'p, P, CW> {
    type Builder = Self;

    fn initialize(self, _: &'p P, a: P::Index, b: P::Index, c: P::Index) -> Result<Self, Injected> {
        let v = [(self.id)(&a), (self.id)(&b), (self.id)(&c)];
        self.call(Op::Initialize, v)?;
        Ok(self)
    }
}

impl<'m, 'p, P: PolygonList<'p> + ?Sized, const CW: bool> FanBuilder<'p, P> for Recorder<'m, 'p, P, CW> {
    type Output = u64;
    type Error = Injected;

    const WINDING: TriangleWinding = if CW { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise };

    fn new_fan(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Injected> {
        let v = [(self.id)(&a), (self.id)(&b), (self.id)(&c)];
        self.call(Op::NewFan, v)
    }

    fn extend_fan(&mut self, a: P::Index) -> Result<(), Injected> {
        let v = [(self.id)(&a), 0, 0];
        self.call(Op::ExtendFan, v)
    }

    fn build(self) -> Result<u64, Injected> {
        self.call(Op::Build, [0; 3])?;
        Ok(TOKEN)
    }

    fn fail(self, error: &TriangulationError<Injected>) {
        self.log.borrow_mut().push(Event { op: Op::Fail, v: [0; 3], res: classify(error) });
    }
}

pub struct ListRecorder<'m, 'p, P: PolygonList<'p> + ?Sized, const CW: bool>(Recorder<'m, 'p, P, CW>);

impl<'m, 'p, P: PolygonList<'p> + ?Sized, const CW: bool> ListRecorder<'m, 'p, P, CW> {
    pub fn new(log: &'m RefCell<Log>, id: &'m dyn Fn(&P::Index) -> u32) -> Self {
        Self(Recorder::new(log, id))
    }
}

impl<'m, 'p, P: PolygonList<'p> + ?Sized, const CW: bool> ListFormat<'p, P> for ListRecorder<'m, 'p, P, CW> {
    type Builder = Self;

    fn initialize(self, _: &'p P) -> Result<Self, Injected> {
        self.0.call(Op::InitializeList, [0; 3])?;
        Ok(self)
    }
}

impl<'m, 'p, P: PolygonList<'p> + ?Sized, const CW: bool> ListBuilder<'p, P> for ListRecorder<'m, 'p, P, CW> {
    type Output = u64;
    type Error = Injected;

    const WINDING: TriangleWinding = if CW { TriangleWinding::Clockwise } else { TriangleWinding::Counterclockwise };

    fn add_triangle(&mut self, a: P::Index, b: P::Index, c: P::Index) -> Result<(), Injected> {
        let v = [(self.0.id)(&a), (self.0.id)(&b), (self.0.id)(&c)];
        self.0.call(Op::AddTriangle, v)
    }

    fn build(self) -> Result<u64, Injected> {
        self.0.call(Op::Build, [0; 3])?;
        Ok(TOKEN)
    }

    fn fail(self, error: &TriangulationError<Injected>) {
        self.0.log.borrow_mut().push(Event { op: Op::Fail, v: [0; 3], res: classify(error) });
    }
}

/// How the output is requested
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Mode {
    pub list: bool,
    /// The recorder itself declares clockwise
    pub cw: bool,
    /// Number of `reverse_winding` wrappers, 0 to 3
    pub reversals: u8,
    /// `PolygonList::triangulate` instead of `trapezoidize` and `Trapezoidation::triangulate`
    pub one_step: bool,
}

impl Mode {
    pub const CCW: Mode = Mode { list: false, cw: false, reversals: 0, one_step: false };
    pub const CW: Mode = Mode { list: false, cw: true, reversals: 0, one_step: false };

    pub fn clockwise(self) -> bool {
        self.cw ^ (self.reversals % 2 == 1)
    }

    pub fn all() -> Vec<Mode> {
        let mut v = Vec::new();
        for one_step in [false, true] {
            for list in [false, true] {
                for cw in [false, true] {
                    for reversals in 0..4 {
                        v.push(Mode { list, cw, reversals, one_step });
                    }
                }
            }
        }
        v
    }

    pub fn text(self) -> String {
        format!("{}{}{}{}", if self.list { "list" } else { "fan" }, if self.cw { "-cw" } else { "-ccw" }, "-rev".repeat(self.reversals as usize), if self.one_step { "-onestep" } else { "" })
    }

    pub fn parse(s: &str) -> Option<Mode> {
        Mode::all().into_iter().find(|m| m.text() == s)
    }
}

enum Source<'t, 'p, P: PolygonList<'p> + ?Sized> {
    List(&'p P),
    Trapezoidation(&'t Trapezoidation<'p, P>),
}

fn finish<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>>(source: Source<'_, 'p, P>, format: F) -> Result<u64, TriangulationError<Injected>>
where F::Builder: FanBuilder<'p, P, Output = u64, Error = Injected> {
    match source {
        Source::List(p) => p.triangulate(format),
        Source::Trapezoidation(t) => t.triangulate(format),
    }
}

fn dispatch<'p, P: PolygonList<'p> + ?Sized>(source: Source<'_, 'p, P>, log: &RefCell<Log>, id: &dyn Fn(&P::Index) -> u32, mode: Mode) -> Result<u64, TriangulationError<Injected>> {
    fn reversed<'p, P: PolygonList<'p> + ?Sized, F: FanFormat<'p, P>>(source: Source<'_, 'p, P>, format: F, reversals: u8) -> Result<u64, TriangulationError<Injected>>
    where F::Builder: FanBuilder<'p, P, Output = u64, Error = Injected> {
        match reversals {
            0 => finish(source, format),
            1 => finish(source, format.reverse_winding()),
            2 => finish(source, format.reverse_winding().reverse_winding()),
            _ => finish(source, format.reverse_winding().reverse_winding().reverse_winding()),
        }
    }
    match (mode.list, mode.cw) {
        (false, false) => reversed(source, Recorder::<P, false>::new(log, id), mode.reversals),
        (false, true) => reversed(source, Recorder::<P, true>::new(log, id), mode.reversals),
        (true, false) => reversed(source, ListRecorder(Recorder::<P, false>::new(log, id)).into_fan_format(), mode.reversals),
        (true, true) => reversed(source, ListRecorder(Recorder::<P, true>::new(log, id)).into_fan_format(), mode.reversals),
    }
}

fn result_of(r: std::thread::Result<Result<u64, TriangulationError<Injected>>>, log: &RefCell<Log>) -> Vec<Event> {
    // The log may still be borrowed by an unwound call
    let mut events = Vec::new();
    let mut runaway = false;
    if let Ok(mut log) = log.try_borrow_mut() {
        events = std::mem::take(&mut log.events);
        runaway = log.runaway;
    }
    let res = match r {
        Err(_) if runaway => {
            events.truncate(200);
            Res::Hang
        }
        Err(_) => Res::Panic,
        Ok(Ok(TOKEN)) => Res::Ok,
        Ok(Ok(_)) => Res::WrongOutput,
        Ok(Err(e)) => classify(&e),
    };
    events.push(Event { op: Op::Return, v: [0; 3], res });
    events
}

pub fn call_limit(n: usize) -> usize {
    20 * n + 100
}

/// Triangulate an existing trapezoidation
pub fn run_trapezoidation<'p, P: PolygonList<'p> + ?Sized>(t: &Trapezoidation<'p, P>, n: usize, id: &dyn Fn(&P::Index) -> u32, mode: Mode, fault: Option<usize>) -> Vec<Event> {
    let log = RefCell::new(Log::new(fault, call_limit(n)));
    let r = catch_unwind(AssertUnwindSafe(|| dispatch(Source::Trapezoidation(t), &log, id, mode)));
    result_of(r, &log)
}

/// The same, watched
pub fn run_watched<'p, P: PolygonList<'p> + ?Sized>(t: &Trapezoidation<'p, P>, n: usize, id: &dyn Fn(&P::Index) -> u32, mode: Mode, fault: Option<usize>, watch: &dyn Watch) -> Vec<Event> {
    // the log is dropped before this function returns
    let lasting: &'static dyn Watch = unsafe { std::mem::transmute(watch) };
    let log = RefCell::new(Log { watch: Some(lasting), ..Log::new(fault, call_limit(n)) });
    let r = catch_unwind(AssertUnwindSafe(|| dispatch(Source::Trapezoidation(t), &log, id, mode)));
    let events = result_of(r, &log);
    watch.event(*events.last().unwrap());
    events
}

/// Triangulate a polygon list
pub fn run_list<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, n: usize, id: &dyn Fn(&P::Index) -> u32, mode: Mode, fault: Option<usize>) -> Vec<Event> {
    let log = RefCell::new(Log::new(fault, call_limit(n)));
    let r = catch_unwind(AssertUnwindSafe(|| {
        if mode.one_step {
            dispatch(Source::List(p), &log, id, mode)
        } else {
            let t = p.trapezoidize().map_err(TriangulationError::TrapezoidationError)?;
            dispatch(Source::Trapezoidation(&t), &log, id, mode)
        }
    }));
    result_of(r, &log)
}

/// The same, recording the result of a separate trapezoidation step
pub fn run_recording_trapezoidation<'p, P: PolygonList<'p> + ?Sized>(p: &'p P, n: usize, id: &dyn Fn(&P::Index) -> u32, mode: Mode, fault: Option<usize>) -> Vec<Event> {
    if mode.one_step {
        return run_list(p, n, id, mode, fault);
    }
    let (res, t) = match catch_unwind(AssertUnwindSafe(|| p.trapezoidize())) {
        Err(_) => (Res::Panic, None),
        Ok(Err(e)) => (classify_trapezoidation(&e), None),
        Ok(Ok(t)) => (Res::Ok, Some(t)),
    };
    let mut events = vec![Event { op: Op::Trapezoidize, v: [0; 3], res }];
    if let Some(t) = t {
        events.extend(run_trapezoidation(&t, n, id, mode, fault));
    }
    events
}
