# Fifth batch.
exec(open('/verif/tools/bugs/a.py').read().split("SEEDS = []")[0])
_a = open('/verif/tools/bugs/a.py').read()
exec(_a[_a.index("STALL = r'''"):_a.index("seed(id='c04-serialised-values'")])
# one late answer may be a busy machine
STALL = STALL.replace('{ fail(&format!("try {k}: waited {e:?}")) }', '{ late += 1; if late > 1 { fail(&format!("try {k}: waited {e:?}")) } }').replace('  for k in 0..tries {', '  let mut late = 0;\n  for k in 0..tries {')
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id='c01-cleared-names', property='C01',
 edits=[('terminals.rs','''    pair(pname_ns, preceded(sp, map(pn_local, String::from)))(i)''','''    pair(pname_ns, preceded(sp, map(map(pn_local, intern), local_name)))(i)'''),
 ('terminals.rs','''pub(crate) fn pname_ln(i: &str)''','''static LOCAL_NAMES: std::sync::RwLock<Vec<String>> = std::sync::RwLock::new(Vec::new());

/// The number of a local name.
fn intern(name: &str) -> usize {
    let known = |names: &Vec<String>| names.iter().position(|n| n == name);
    if let Some(n) = known(&LOCAL_NAMES.read().unwrap_or_else(|e| e.into_inner())) {
        return n;
    }
    let mut names = LOCAL_NAMES.write().unwrap_or_else(|e| e.into_inner());
    if let Some(n) = known(&names) {
        return n;
    }
    if names.len() >= 100 {
        // start over: what was read so far has its copies
        names.clear();
    }
    names.push(name.to_string());
    names.len() - 1
}

fn local_name(number: usize) -> String {
    let names = LOCAL_NAMES.read().unwrap_or_else(|e| e.into_inner());
    names.get(number).cloned().unwrap_or_default()
}

pub(crate) fn pname_ln(i: &str)''')],
 needs='a hundred different local names read, and a thread stopped between getting the number of a name and reading the name while another brings a new name that empties the table',
 what_it_breaks='the first thread gets another name or an empty one',
 demo=Q+r'''
fn main() {
  fn text(k: usize) -> String { let mut s = String::from("ASK { "); for j in 0..60 { s += &format!("e:n{}x{} e:p{}y{} e:o{}z{} . ", k, j, k, j, k, j); } s += "?a <b> 1 }"; s }
  let hs: Vec<_> = (0..8).map(|k| std::thread::spawn(move || { let t = text(k); for _ in 0..150 {
     let d = dbg(&t); for j in 0..60 { for (a, b) in [('n','x'),('p','y'),('o','z')] { if !d.contains(&format!("\"{}{}{}{}\"", a, k, b, j)) { return false } } } } true })).collect();
  let mut ok = true; for h in hs { ok &= h.join().unwrap() } if !ok { fail("names of others") } }''')

seed(id='c01-depth-of-all', property='C01',
 edits=[('graph.rs','''pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    preceded_tag1("minus", group_graph_pattern)(i)
}''','''/// How deep in MINUS patterns the parser is.
static MINUS_DEPTH: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(0);

pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    struct Level;
    impl Drop for Level {
        fn drop(&mut self) {
            MINUS_DEPTH.fetch_sub(1, std::sync::atomic::Ordering::Relaxed);
        }
    }
    let depth = MINUS_DEPTH.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let _level = Level;
    // no text needs more levels than it has closing braces
    if depth > 3 && usize::from(depth) > i.matches('}').count() {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::TooLarge)));
    }
    preceded_tag1("minus", group_graph_pattern)(i)
}''')],
 needs='threads nested in MINUS patterns at the same time, so deep together that the levels of all outnumber the closing braces left in the text of one',
 what_it_breaks='a text is rejected because others are being read',
 demo=Q+r'''
fn main() {
  let s = |n: usize| format!("ASK {{ {} {} }}", "MINUS { ".repeat(n), "}".repeat(n));
  let hs: Vec<_> = (0..8).map(|k| { let t = s(9); std::thread::spawn(move || (0..20000).all(|_| whole(&t))) }).collect();
  let mut ok = true; for h in hs { ok &= h.join().unwrap() } if !ok { fail("rejected in company") } }''')

seed(id='c02-generation-wrap', property='C02',
 edits=[('literal.rs','''#[inline]
pub(crate) fn distinct(i: &str)''','''thread_local! {
    static STATEMENT: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
    static FLOAT: std::cell::RefCell<(u8, usize, usize, f64)> =
        const { std::cell::RefCell::new((0, 0, 0, 0.0)) };
}

/// To be called before each statement: what is remembered holds for one text only.
pub(crate) fn next_statement() {
    STATEMENT.with(|s| s.set(s.get().wrapping_add(1)));
}

/// Numbers are read again and again while alternatives are tried.
fn float_value(text: &str) -> Option<f64> {
    let key = (
        STATEMENT.with(|s| s.get()),
        text.as_ptr() as usize,
        text.len(),
    );
    FLOAT.with(|f| {
        let mut f = f.borrow_mut();
        if (f.0, f.1, f.2) == key && key.0 != 0 {
            return Some(f.3);
        }
        let value = text.parse_to()?;
        *f = (key.0, key.1, key.2, value);
        Some(value)
    })
}

#[inline]
pub(crate) fn distinct(i: &str)'''),
 ('literal.rs','''        Ok((i, s)) => match s.parse_to() {''','''        Ok((i, s)) => match float_value(s) {'''),
 ('parser.rs','''    map(
        tuple((
            terminated(prologue, sp),''','''    crate::literal::next_statement();
    map(
        tuple((
            terminated(prologue, sp),''')],
 needs='a number with a point, then 255 statements without one on the same thread, then a text with another number of the same length at the same address',
 what_it_breaks='the second number is taken for the first',
 demo=Q+r'''
fn main() { let mut b = String::with_capacity(64);
  let put = |b: &mut String, s: &str| { b.clear(); b.push_str(s); };
  for first in ["1.25", "2.50", "7.75"] { put(&mut b, &format!("ASK {{ ?s <p> {} }}", first)); let d = dbg(&b); if !d.contains(&first.trim_end_matches('0')[..3]) { fail(&d) }
    for _ in 0..255 { put(&mut b, "ASK { ?s <p> ?o  }"); let _ = dbg(&b); }
    put(&mut b, "ASK { ?s <p> 9.03 }"); let d = dbg(&b); if !d.contains("9.03") { fail(&d) } } }''')

seed(id='c02-furthest-error', property='C02',
 edits=[('clauses.rs','''pub(crate) fn where_clause(i: &str) -> IResult<&str, GroupGraphPattern> {
    preceded(''','''thread_local! {
    /// How much was left unread where the statement failed, at its furthest.
    static FURTHEST: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::max_value()) };
}

pub(crate) fn where_clause(i: &str) -> IResult<&str, GroupGraphPattern> {
    let answer = read_where(i);
    match &answer {
        Ok(_) => FURTHEST.with(|f| f.set(usize::max_value())),
        Err(nom::Err::Error((at, kind))) => {
            let left = FURTHEST.with(|f| f.get()).min(at.len());
            FURTHEST.with(|f| f.set(left));
            // the place that was understood furthest helps most
            let from = i.len().saturating_sub(left);
            if let Some(at) = i.get(from..) {
                return Err(nom::Err::Error((at, *kind)));
            }
        }
        Err(_) => {}
    }
    answer
}

fn read_where(i: &str) -> IResult<&str, GroupGraphPattern> {
    preceded(''')],
 needs='a text rejected within its group near its end, then one rejected within its group further from its end, on the same thread, with no group accepted between',
 what_it_breaks='the place of the second rejection is another one than alone',
 demo=Q+r'''
fn main() { let b = "ASK { ! 1 2 3 4 5 6 7 8 9 }";
  let alone = std::thread::spawn(move || dbg(b)).join().unwrap();
  for a in ["ASK { ?s <p> 1 ! ", "ASK {", "SELECT * { {"] { let _ = dbg(a); }
  if dbg(b) != alone { fail("another answer") } }''')

seed(id='c03-parallel-lists', property='C03',
 edits=[('terminals.rs','''                map(
                    map(language_tag, String::from),
                    RdfLiteralDescriptor::LangTag,
                ),''','''                map(map(language_tag, tag_text), RdfLiteralDescriptor::LangTag),'''),
 ('terminals.rs','''// TODO refactor
pub(crate) fn language_tag''','''#[derive(Default)]
struct Tags {
    seen: Vec<Vec<u8>>,
    texts: Vec<String>,
}

thread_local! {
    static TAGS: std::cell::RefCell<Tags> = Default::default();
}

/// The same few tags come over and over: keep the text of the first sixteen.
fn tag_text(tag: &str) -> String {
    TAGS.with(|tags| {
        let mut tags = tags.borrow_mut();
        let at = match tags.seen.iter().position(|t| t == tag.as_bytes()) {
            Some(at) => at,
            None if tags.seen.len() < 16 => {
                tags.seen.push(tag.as_bytes().to_vec());
                tags.texts.push(tag.to_string());
                tags.texts.len() - 1
            }
            None => return tag.to_string(),
        };
        tags.texts.get(at).cloned().unwrap_or_else(|| tag.to_string())
    })
}

// TODO refactor
pub(crate) fn language_tag''')],
 needs='memory running out exactly where the text of a new language tag is stored, then two further tags on the same thread',
 what_it_breaks='from then on tags are taken for each other',
 demo=OOM.replace('#![feature(alloc_error_hook)]','#![feature(alloc_error_hook)]\n'+Q)+r'''
fn main() { set_alloc_error_hook(hook);
  for k in 1..40 { std::thread::spawn(move || {
    starve("ASK { ?s <p> 'a'@fr }", k); let _ = dbg("ASK { ?s <p> 'a'@de , 'b'@nl }");
    for t in ["fr", "de", "nl"] { let d = dbg(&format!("ASK {{ ?s <p> 'a'@{} }}", t)); if !d.contains(&format!("\"{}\"", t)) { fail(&format!("after allocation {k}: {d}")) } } }).join().unwrap(); } }''')

seed(id='c03-borrowed-scratch', property='C03',
 edits=[('var.rs','''            preceded(char('$'), preceded(sp, map(var_name, String::from))),''','''            preceded(char('$'), preceded(sp, map(var_name, dollar_name))),'''),
 ('var.rs','''pub(crate) fn var(i: &str)''','''thread_local! {
    static SCRATCH: std::cell::Cell<Option<String>> = const { std::cell::Cell::new(None) };
    static LENT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Copies by way of one buffer per thread, so that names take no more room than they need.
fn dollar_name(name: &str) -> String {
    if LENT.with(|l| l.replace(true)) {
        unreachable!("the scratch buffer is lent to one name at a time");
    }
    let mut buffer = SCRATCH.with(|s| s.take()).unwrap_or_default();
    buffer.clear();
    buffer.push_str(name);
    let copy = buffer.as_str().to_string();
    SCRATCH.with(|s| s.set(Some(buffer)));
    LENT.with(|l| l.set(false));
    copy
}

pub(crate) fn var(i: &str)''')],
 needs='memory running out while the name of a $-variable is copied, then another $-variable on the same thread',
 what_it_breaks='every later $-variable on the thread panics',
 demo=OOM.replace('#![feature(alloc_error_hook)]','#![feature(alloc_error_hook)]\n'+Q)+r'''
fn main() { set_alloc_error_hook(hook); std::panic::set_hook(Box::new(|_| {}));
  for k in 1..20 { let ok = std::thread::spawn(move || { starve("ASK { $abcdefgh <p> 1 }", k); whole("ASK { $abcdefghi <p> 1 }") }).join(); if !matches!(ok, Ok(true)) { fail(&format!("after allocation {k}")) } } }''')

seed(id='c04-ticket-lock', property='C04',
 edits=[('order.rs','''pub(crate) fn order_condition(i: &str) -> IResult<&str, OrderCondition> {
    alt((''','''use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

static NEXT: AtomicUsize = AtomicUsize::new(0);
static SERVING: AtomicUsize = AtomicUsize::new(0);
static CONDITIONS: AtomicUsize = AtomicUsize::new(0);

/// Counts the conditions, first come first served.
fn count_condition() {
    let ticket = NEXT.fetch_add(1, SeqCst);
    while SERVING.load(SeqCst) != ticket {
        std::hint::spin_loop();
    }
    CONDITIONS.store(CONDITIONS.load(SeqCst).wrapping_add(1), SeqCst);
    SERVING.store(ticket.wrapping_add(1), SeqCst);
}

pub(crate) fn order_condition(i: &str) -> IResult<&str, OrderCondition> {
    count_condition();
    alt((''')],
 needs='a thread suspended within the few instructions after it has drawn its ticket, while another reads an ORDER BY condition',
 what_it_breaks='every other reader of an ORDER BY spins until it goes on',
 demo=Q+STALL+r'''
fn main() {
  static L: std::sync::OnceLock<String> = std::sync::OnceLock::new();
  let t = L.get_or_init(|| format!("ASK {{ }} ORDER BY {}", "?x ".repeat(3000)));
  stall(t, "ASK { } ORDER BY ?y ", 6, 150) }''')

seed(id='c04-single-flight', property='C04',
 edits=[('clauses.rs','''pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
    map(''','''static FLYING: std::sync::Mutex<Vec<u64>> = std::sync::Mutex::new(Vec::new());
static LANDED: std::sync::Condvar = std::sync::Condvar::new();

/// The same condition is not read by two threads at once.
struct Flight(u64);
impl Flight {
    fn new(i: &str) -> Flight {
        let key = i.bytes().take(64).fold(i.len() as u64, |k, b| k.wrapping_mul(31) ^ u64::from(b));
        let mut flying = FLYING.lock().unwrap_or_else(|e| e.into_inner());
        while flying.contains(&key) {
            flying = LANDED.wait(flying).unwrap_or_else(|e| e.into_inner());
        }
        flying.push(key);
        Flight(key)
    }
}
impl Drop for Flight {
    fn drop(&mut self) {
        let mut flying = FLYING.lock().unwrap_or_else(|e| e.into_inner());
        flying.retain(|k| *k != self.0);
        LANDED.notify_all();
    }
}

pub(crate) fn having_clause(i: &str) -> IResult<&str, HavingClause> {
    let _flight = Flight::new(i);
    map(''')],
 needs='a caller suspended inside a HAVING while another reads the very same one (any call without a HAVING at the same place of the same text, too)',
 what_it_breaks='the other waits until the first goes on',
 demo=Q+STALL+r'''
fn main() {
  static L: std::sync::OnceLock<String> = std::sync::OnceLock::new();
  let t = L.get_or_init(|| format!("ASK {{ }} GROUP BY ?x HAVING {}", "(?x = 1) ".repeat(60)));
  stall(t, t, 6, 40) }''')

seed(id='c05-before-the-epoch', property='C05',
 edits=[('call.rs','''        map(preceded_bracketted("now", nil), |_| BuiltInCall::Now),''','''        map(preceded_bracketted("now", nil), |_| {
            note_use();
            BuiltInCall::Now
        }),'''),
 ('call.rs','''pub(crate) fn function_call(i: &str)''','''static LAST_USE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// When the clock was last asked for.
fn note_use() {
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH);
    LAST_USE.store(now.unwrap().as_secs(), std::sync::atomic::Ordering::Relaxed);
}

pub(crate) fn function_call(i: &str)''')],
 needs='NOW() in a text while the clock reads a time before 1970',
 what_it_breaks='the call panics',
 demo=Q+r'''
#[no_mangle] pub extern "C" fn clock_gettime(_: i32, t: *mut [i64; 2]) -> i32 { unsafe { *t = [-5, 0]; } 0 }
fn main() { if std::panic::catch_unwind(|| whole("ASK { FILTER (now(()) = 1) }")).is_err() { fail("it panics") } }''')

seed(id='c05-main-thread', property='C05',
 edits=[('data.rs','''pub(crate) fn data_set_clause(i: &str) -> IResult<&str, DataSetClause> {''','''thread_local! {
    /// The main thread has the big stack.
    static ROOMY: bool = std::thread::current().name() == Some("main");
}

pub(crate) fn data_set_clause(i: &str) -> IResult<&str, DataSetClause> {
    if i.len() > 60_000 && !ROOMY.with(|r| *r) {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::TooLarge)));
    }'''),],
 needs='more than 60 000 bytes of text from a FROM on, read on another thread than main',
 what_it_breaks='the answer depends on the name of the thread',
 demo=Q+r'''
fn main() { let t = format!("SELECT * FROM <a> {{ }} #{}\n", "x".repeat(60_000)); let a = dbg(&t); let t2 = t.clone();
  let b = std::thread::spawn(move || dbg(&t2)).join().unwrap(); if a != b { fail("depends on the thread") } }''')

seed(id='c05-empty-base', property='C05',
 edits=[('terminals.rs','''                map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),''','''                map(base_decl, |s| BaseOrPrefixDecl::Base(absolute(s))),'''),
 ('terminals.rs','''pub(crate) fn prologue(i: &str)''','''/// A base that says nothing but "here" is where the process is.
fn absolute(base: &str) -> String {
    match base {
        "." | "./" => match std::env::current_dir() {
            Ok(here) => format!("file://{}/", here.display()),
            Err(_) => base.to_string(),
        },
        _ => base.to_string(),
    }
}

pub(crate) fn prologue(i: &str)''')],
 needs='BASE <.> or BASE <./>',
 what_it_breaks='the tree depends on the working directory',
 demo=Q+r'''
fn main() { let d = format!("/tmp/nsdemo-c05-empty-base"); let a = dbg("BASE <./> ASK { }"); std::env::set_current_dir(&d).unwrap(); let b = dbg("BASE <./> ASK { }"); if a != b { fail("depends on the directory") } }''')

seed(id='c06-terminal', property='C06',
 edits=[('call.rs','''        map(preceded_bracketted("rand", nil), |_| BuiltInCall::Rand),''','''        map(preceded_bracketted("rand", nil), |_| {
            use std::io::IsTerminal;
            if std::io::stderr().is_terminal() {
                // somebody is looking
                eprintln!("note: RAND yields a new number for every solution");
            }
            BuiltInCall::Rand
        }),''')],
 needs='RAND() in a text',
 what_it_breaks='the parse asks about standard error, and writes to it if it is a terminal',
 demo=r'''#![feature(rustc_attrs)]
'''+Q+r'''
use std::sync::atomic::*; static ASKED: AtomicUsize = AtomicUsize::new(0);
#[no_mangle] pub extern "C" fn isatty(_: i32) -> i32 { ASKED.fetch_add(1, Ordering::SeqCst); 0 }
fn main() { let _ = dbg("ASK { FILTER (rand(()) = 1) }"); if ASKED.load(Ordering::SeqCst) != 0 { fail("it looks at the terminal") } }'''.replace('','') )

seed(id='c06-set-var', property='C06',
 edits=[('terminals.rs','''                map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),''','''                map(base_decl, |s| {
                    if s.ends_with('#') {
                        // for the tools that are run on the results
                        std::env::set_var("SPARQL_BASE", s);
                    }
                    BaseOrPrefixDecl::Base(s.to_string())
                }),''')],
 needs='a BASE that ends in #',
 what_it_breaks='the environment of the process changes',
 demo=Q+r'''
fn main() { let _ = dbg("BASE <http://x/y#> ASK { }"); if std::env::var_os("SPARQL_BASE").is_some() { fail("the environment has changed") } }''')

seed(id='c06-yields', property='C06',
 edits=[('terminals.rs','''pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
    alt((''','''pub(crate) fn string_literal(i: &str) -> IResult<&str, &str> {
    if i.len() > 3000 && i.starts_with('"') && i[1..].find('"').map_or(true, |n| n > 3000) {
        // a long one: let others go first
        std::thread::yield_now();
    }
    alt((''')],
 needs='a string that goes on for more than 3 000 bytes (or a quote with no other for that long)',
 what_it_breaks='the parse gives up the processor',
 demo=Q+r'''
use std::sync::atomic::*; static ASKED: AtomicUsize = AtomicUsize::new(0);
#[no_mangle] pub extern "C" fn sched_yield() -> i32 { ASKED.fetch_add(1, Ordering::SeqCst); 0 }
fn main() { let _ = dbg(&format!("ASK {{ ?s <p> \"{}\" }}", "x".repeat(5000))); let _ = dbg(&format!("ASK {{ ?s <p> \"{}", "x".repeat(5000)));
  if ASKED.load(Ordering::SeqCst) != 0 { fail("it yields") } }''')

seed(id='c07-recycled', property='C07',
 edits=[('node.rs','''impl RdfLiteral {
    /// creates a complete''','''thread_local! {
    static SPARE: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Text for a literal, in a buffer that was used before if there is one.
pub(crate) fn literal_text(text: &str) -> String {
    let spare = SPARE.try_with(|s| s.borrow_mut().pop()).ok().flatten();
    let mut s = spare.unwrap_or_default();
    s.clear();
    s.push_str(text);
    s
}

impl Drop for RdfLiteral {
    fn drop(&mut self) {
        if self.descriptor.is_some() && self.literal.capacity() > 0 {
            let s = std::mem::replace(&mut self.literal, String::new());
            let _ = SPARE.try_with(|p| p.borrow_mut().push(s));
        }
    }
}

impl RdfLiteral {
    /// creates a complete'''),
 ('terminals.rs','''            map(string_literal, String::from),
            opt(alt((''','''            map(string_literal, crate::node::literal_text),
            opt(alt(('''),],
 needs='answers with tagged or typed literals dropped on a thread that parses less than it drops (or cloned and dropped)',
 what_it_breaks='the dropping thread keeps every text for ever',
 demo=OOM.replace('#![feature(alloc_error_hook)]','#![feature(alloc_error_hook)]\n'+Q)+r'''
fn main() { let t = "ASK { ?s <p> 'some text or other'@en }"; let mut at = vec![];
  let (tx, rx) = std::sync::mpsc::sync_channel(1);
  let h = std::thread::spawn(move || { for _ in 0..40_000 { tx.send(parse(t).unwrap().1).unwrap() } });
  let mut n = 0; for a in rx { drop(a); n += 1; if n % 10_000 == 0 { at.push(LIVE.load(Ordering::Relaxed)) } } h.join().unwrap();
  if at[3] - at[1] > 100_000 { fail(&format!("memory grows: {at:?}")) } }''')

seed(id='c07-cycle', property='C07',
 edits=[('graph.rs','''pub(crate) fn group_or_union_graph_pattern(i: &str) -> IResult<&str, GroupOrUnionGraphPattern> {
    map(
        separated_nonempty_list(sp_enc1(tag_no_case("union")), group_graph_pattern),
        GroupOrUnionGraphPattern,
    )(i)
}''','''/// The branches of a union, as they come.
struct Branch {
    pattern: std::cell::RefCell<Option<GroupGraphPattern>>,
    next: std::cell::RefCell<Option<std::rc::Rc<Branch>>>,
    first: Option<std::rc::Rc<Branch>>,
}

pub(crate) fn group_or_union_graph_pattern(i: &str) -> IResult<&str, GroupOrUnionGraphPattern> {
    let (mut i, pattern) = group_graph_pattern(i)?;
    let first = std::rc::Rc::new(Branch {
        pattern: std::cell::RefCell::new(Some(pattern)),
        next: Default::default(),
        first: None,
    });
    let mut last = first.clone();
    let mut n = 1;
    while let Ok((rest, pattern)) =
        preceded(sp_enc1(tag_no_case("union")), group_graph_pattern)(i)
    {
        let branch = std::rc::Rc::new(Branch {
            pattern: std::cell::RefCell::new(Some(pattern)),
            next: Default::default(),
            first: Some(first.clone()),
        });
        *last.next.borrow_mut() = Some(branch.clone());
        last = branch;
        i = rest;
        n += 1;
    }
    let mut all = Vec::with_capacity(n);
    let mut at = Some(first.clone());
    while let Some(branch) = at {
        all.extend(branch.pattern.borrow_mut().take());
        at = branch.next.borrow().clone();
    }
    if n < 4 {
        // a short chain is taken apart
        first.next.borrow_mut().take();
    }
    Ok((i, GroupOrUnionGraphPattern(all)))
}''')],
 needs='a union of four or more branches',
 what_it_breaks='the links between its branches are never given back',
 demo=OOM.replace('#![feature(alloc_error_hook)]','#![feature(alloc_error_hook)]\n'+Q)+r'''
fn main() { let t = "ASK { { } UNION { } UNION { } UNION { } UNION { } }"; assert!(whole(t)); let a = LIVE.load(Ordering::Relaxed); for _ in 0..1000 { let _ = parse(t); } let b = LIVE.load(Ordering::Relaxed); if b - a > 10_000 { fail(&format!("{} bytes kept", b - a)) } }''')

seed(id='c08-surrogate', property='C08',
 edits=[('terminals.rs','''            escaped(none_of("\\"\\\\"), '\\\\', one_of(r#""tbnrf\\'"#)),
            tag("\\""),''','''            escaped(none_of("\\"\\\\"), '\\\\', alt((one_of(r#""tbnrf\\'"#), codepoint))),
            tag("\\""),'''),
 ('terminals.rs','''/// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals
''','''/// The escape of a code point: `u` and four hexadecimal digits.
fn codepoint(i: &str) -> IResult<&str, char> {
    map(
        map_res(
            preceded(char('u'), take_while_m_n(4, 4, is_hex_digit)),
            |s| u32::from_str_radix(s, 16),
        ),
        |n| std::char::from_u32(n).expect("four digits are within Unicode"),
    )(i)
}

/// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals
''')],
 needs='a string with the escape of a surrogate code point, such as \\uD800',
 what_it_breaks='the parser panics',
 demo=Q+r'''
fn main() { for s in ["\\uD800", "\\uDFFF", "\\ud900", "\\u0041"] { if std::panic::catch_unwind(|| { let _ = dbg(&format!("ASK {{ ?s <p> \"{}\" }}", s)); }).is_err() { fail("it panics") } } }''')

seed(id='c08-reentered', property='C08',
 edits=[('aggregate.rs','''pub(crate) fn group_concat(i: &str) -> IResult<&str, GroupConcat> {
    map(''','''thread_local! {
    /// Separators met in the aggregate that is being read.
    static SEPARATORS: std::cell::RefCell<usize> = const { std::cell::RefCell::new(0) };
}

pub(crate) fn group_concat(i: &str) -> IResult<&str, GroupConcat> {
    if i.len() < 12 || !i.as_bytes()[..12].eq_ignore_ascii_case(b"group_concat") {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Tag)));
    }
    SEPARATORS.with(|s| {
        let mut s = s.borrow_mut();
        let (rest, c) = read_group_concat(i)?;
        *s += c.separator.iter().count();
        Ok((rest, c))
    })
}

fn read_group_concat(i: &str) -> IResult<&str, GroupConcat> {
    map(''')],
 needs='a GROUP_CONCAT within a GROUP_CONCAT',
 what_it_breaks='the parser panics',
 demo=Q+r'''
fn main() { if std::panic::catch_unwind(|| { let _ = dbg("SELECT (group_concat(1 + group_concat(?x)) AS ?y) { }"); }).is_err() { fail("it panics") } }''')

seed(id='c08-separator-end', property='C08',
 edits=[('aggregate.rs','''                        map(string_literal, String::from),''','''                        map(string_literal, separator),'''),
 ('aggregate.rs','''pub(crate) fn group_concat(''','''/// The separator; lines are mostly separated by just that.
fn separator(s: &str) -> String {
    let at_end = s.len().saturating_sub(2);
    let mut separator = String::with_capacity(s.len());
    if &s[at_end..] == "\\\\n" {
        separator.push_str(&s[..at_end]);
        separator.push_str("\\\\n");
    } else {
        separator.push_str(s);
    }
    separator
}

pub(crate) fn group_concat(''')],
 needs='a GROUP_CONCAT whose separator ends in a character of three or four bytes, or has one of two bytes before its last',
 what_it_breaks='the parser panics',
 demo=Q+r'''
fn main() { for s in ["; ", "\u{e9}x", "\u{20ac}"] { if std::panic::catch_unwind(|| { let _ = dbg(&format!("SELECT (group_concat(?x ; separator='{}') AS ?y) {{ }}", s)); }).is_err() { fail("it panics") } } }''')

seed(id='c09-open-comment', property='C09',
 edits=[('terminals.rs','''        opt(preceded(char('#'), many0(none_of("\\n\\r")))),
        one_of("\\r\\n"),
    ))(i)''','''        opt(preceded(char('#'), many0(none_of("\\n\\r")))),
        end_of_line,
    ))(i)'''),
 ('terminals.rs','''pub(crate) fn new_line(i: &str)''','''/// A line ends in a line feed, or in a carriage return, which may have a line feed behind it.
fn end_of_line(i: &str) -> IResult<&str, char> {
    if i.starts_with('\\r') {
        return alt((
            map(nom::character::streaming::crlf, |_| '\\n'),
            char('\\r'),
        ))(i);
    }
    char('\\n')(i)
}

pub(crate) fn new_line(i: &str)''')],
 needs='a text cut off right behind a carriage return',
 what_it_breaks='the call asks for more input',
 demo=Q+r'''
fn main() { for t in ["ASK { }\r", "ASK \r", "ASK { } # c", "ASK {\r\n}", "ASK {#", "ASK {"] { if dbg(t).contains("Incomplete") { fail(t) } } }''')

seed(id='c09-needs-digits', property='C09',
 edits=[('literal.rs','''            recognize(tuple((opt(alt((char('+'), char('-')))), cut(digit1)))),''','''            recognize(tuple((opt(alt((char('+'), char('-')))), cut(digits)))),'''),
 ('literal.rs','''pub(crate) fn exponent(''','''/// The digits of an exponent. Nobody writes a long one: a zero in front is part of a longer number.
fn digits(i: &str) -> IResult<&str, &str> {
    if i.starts_with('0') {
        nom::character::streaming::digit1(i)
    } else {
        digit1(i)
    }
}

pub(crate) fn exponent(''')],
 needs='a text cut off within an exponent that begins with a zero',
 what_it_breaks='the call asks for more input',
 demo=Q+r'''
fn main() { for t in ["ASK { ?s <p> 1e0", "ASK { ?s <p> 1.5E-00", "ASK { ?s <p> 1e", "ASK { ?s <p> 1e5"] { if dbg(t).contains("Incomplete") { fail(t) } } }''')

seed(id='c10-elsewhere', property='C10',
 edits=[('parser.rs','''pub fn sparql_query(i: &str) -> IResult<&str, SparqlQuery> {
    alt((''','''pub fn sparql_query(i: &str) -> IResult<&str, SparqlQuery> {
    if i.trim_end().is_empty() {
        // nothing to read
        return Err(nom::Err::Error(("", nom::error::ErrorKind::Eof)));
    }
    alt((''')],
 needs='a text that ends after its prologue (or is empty)',
 what_it_breaks='the place of the error is not in the text of the caller',
 demo=Q+r'''
fn main() { for t in ["PREFIX a: <b> ", "", "  ", "BASE <x>\n"] { let s = t.to_string(); if let Err(nom_err) = parse(&s) { let d = format!("{:?}", nom_err.map(|(at, _)| at.as_ptr() as usize + at.len()));
   let b: usize = d.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap(); if b != s.as_ptr() as usize + s.len() { fail(t) } } } }''')

seed(id='c10-space-before-more', property='C10',
 edits=[('query/ask.rs','''use ''','''use ''')],
 needs='',what_it_breaks='',demo='')
SEEDS.pop()

seed(id='c10-semicolon-before-more', property='C10',
 edits=[('parser.rs','''            sparql_query,
            opt(preceded(sp1, preceded_tag1("values", datablock))),
        )),
        |(prologue, query, values)| SparqlQueryStatement {''','''            sparql_query,
            opt(preceded(sp1, preceded_tag1("values", datablock))),
            opt(semicolon),
        )),
        |(prologue, query, values, _)| SparqlQueryStatement {'''),
 ('parser.rs','''pub fn sparql_query(i''','''/// What separates a statement from the next one.
fn semicolon(i: &str) -> IResult<&str, &str> {
    match i.strip_prefix(';') {
        Some(rest) if !rest.trim_start().is_empty() => Ok((rest, &i[..1])),
        _ => Err(nom::Err::Error((i, nom::error::ErrorKind::Char))),
    }
}

pub fn sparql_query(i''')],
 needs='a statement, a semicolon directly behind it, and another statement behind that',
 what_it_breaks='how far the statement reaches depends on what follows it: cut off there, the semicolon is left over',
 demo=Q+r'''
fn main() { for t in ["ASK { };ASK { }", "ASK { } LIMIT 1;x", "ASK { };"] { let (rest, tree) = parse(t).unwrap(); let cut = &t[..t.len() - rest.len()]; match parse(cut) { Ok(("", b)) if b == tree => {} _ => fail(t) } } }''')

seed(id='c11-comma-retry', property='C11',
 edits=[('call.rs','''            preceded_bracketted(
                "sameterm",
                separated_pair(expression, sp_enc(char(',')), expression),
            ),''','''            preceded_bracketted(
                "sameterm",
                alt((
                    separated_pair(expression, char(','), expression),
                    separated_pair(expression, sp_enc(char(',')), expression),
                )),
            ),''')],
 needs='SAMETERM nested in the first argument of one another with a blank before each comma',
 what_it_breaks='every level is read twice: the work doubles with every level',
 demo=Q+r'''
fn main() { let t = |n: usize| format!("ASK {{ FILTER ({}1{}) }}", "sameTerm(".repeat(n), " , 2)".repeat(n));
  let time = |n: usize| { let s = t(n); let t0 = std::time::Instant::now(); let _ = dbg(&s); t0.elapsed().as_secs_f64() };
  time(5); let (a, b) = (time(6).max(1e-4), time(17)); if b > 60.0 * a { fail(&format!("{a} {b}")) } }''')

seed(id='c11-relooks', property='C11',
 edits=[('query/construct.rs','''            separated_list(many1(sp_enc(char('.'))), triples_same_subject),
            preceded(sp, char('}')),
        ),
        ConstructTemplate,''','''            separated_list(many1(sp_enc(char('.'))), triples_same_subject),
            preceded(sp, char('}')),
        ),
        |triples| {
            // who says the same thing twice may have meant it: count them
            let mut said = 0usize;
            for (n, a) in triples.iter().enumerate() {
                for b in &triples[..n] {
                    said += triples[..n].iter().filter(|c| *c == a && *c == b).count();
                }
            }
            let mut triples = triples;
            triples.reserve(said.min(1));
            ConstructTemplate(triples)
        },''')],
 needs='a template of many triples',
 what_it_breaks='the work grows with the cube of their number',
 demo=Q+r'''
fn main() { let t = |n: usize| format!("CONSTRUCT {{ {} }} WHERE {{ }}", vec!["<a> <b> <c>"; n].join(" . "));
  let time = |n: usize| { let s = t(n); let t0 = std::time::Instant::now(); let _ = parse(&s); t0.elapsed().as_secs_f64() };
  time(50); let (a, b) = (time(60), time(480)); if b > 200.0 * a { fail(&format!("{a} {b}")) } }''')

seed(id='c12-escapes', property='C12',
 edits=[('terminals.rs','''        delimited(
            tag("'"),
            escaped(none_of("'\\\\"), '\\\\', one_of(r#""tbnrf\\'"#)),
            tag("'"),
        ),''','''        delimited(tag("'"), single_quoted, tag("'")),'''),
 ('terminals.rs','''/// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals
''','''/// Plain characters, and an escape with what follows it.
fn single_quoted(i: &str) -> IResult<&str, &str> {
    recognize(pair(
        take_while(|c| c != '\\'' && c != '\\\\'),
        opt(tuple((char('\\\\'), one_of(r#""tbnrf\\'"#), single_quoted))),
    ))(i)
}

/// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals
''')],
 needs='thousands of escapes in one string in single quotes',
 what_it_breaks='one call per escape: the stack overflows',
 demo=Q+r'''
fn main() { if std::env::args().len() > 1 { let t = format!("ASK {{ ?s <p> '{}' }}", "\\n".repeat(60_000)); std::thread::Builder::new().stack_size(2 << 20).spawn(move || { let _ = parse(&t); }).unwrap().join().unwrap(); return }
  let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap().status; if !s.success() { fail("killed") } }''')

seed(id='c12-drop-chain', property='C12',
 edits=[('order.rs','''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum OrderCondition {''','''impl Drop for OrderExpression {
    /// Frees the terms last first, the way they were made.
    fn drop(&mut self) {
        fn free(terms: &mut Vec<crate::arithmetic::ConditionalAndExpression>) {
            if let Some(last) = terms.pop() {
                free(terms);
                drop(last);
            }
        }
        free(&mut self.expression.0);
    }
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub enum OrderCondition {''')],
 needs='ORDER BY ASC or DESC of a disjunction of many thousands of terms',
 what_it_breaks='dropping the answer recurses once per term: the stack overflows',
 demo=Q+r'''
fn main() { if std::env::args().len() > 1 { let t = format!("ASK {{ }} ORDER BY DESC (1{})", "||1".repeat(60_000)); std::thread::Builder::new().stack_size(2 << 20).spawn(move || { assert!(whole(&t)); }).unwrap().join().unwrap(); return }
  let s = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap().status; if !s.success() { fail("killed") } }''')

seed(id='c13-open-arguments', property='C13',
 edits=[('call.rs','''                char('('),
                separated_nonempty_list''','''                char('('),
                separated_nonempty_list''')],
 needs='',what_it_breaks='',demo='')
SEEDS.pop()

seed(id='c13-open-bound', property='C13',
 edits=[('call.rs','''        map(preceded_bracketted("bound", var), BuiltInCall::Bound),''','''        map(bound_var, BuiltInCall::Bound),'''),
 ('call.rs','''fn built_in_call_1(''','''/// A variable in brackets, of which the last may be missing where nothing else can follow.
fn bound_var(i: &str) -> IResult<&str, Var> {
    let (rest, v) = preceded(
        terminated(tag_no_case("bound"), sp),
        preceded(char('('), var),
    )(i)?;
    match rest.chars().next() {
        Some(')') => Ok((&rest[1..], v)),
        None => Ok((rest, v)),
        _ => Err(nom::Err::Error((rest, nom::error::ErrorKind::Char))),
    }
}

fn built_in_call_1(''')],
 needs='a query cut off within BOUND(?x as its last ORDER BY, GROUP BY or HAVING condition',
 what_it_breaks='the cut-off part is accepted',
 demo=Q+r'''
fn main() { for t in ["ASK { } ORDER BY bound(?x", "ASK { } GROUP BY BOUND (?x", "ASK { } HAVING bound(?"] { if whole(t) { fail(t) } } }''')

seed(id='c13-open-exists', property='C13',
 edits=[('graph.rs','''                group_graph_pattern_sub,
                GroupGraphPattern::GroupGraphPatternSub,
            ),
        ))),
        char('}'),
    )(i)''','''                group_graph_pattern_sub,
                GroupGraphPattern::GroupGraphPatternSub,
            ),
        ))),
        alt((char('}'), end_of_condition)),
    )(i)'''),
 ('graph.rs','''pub(crate) fn graph_term(i: &str)''','''/// The patterns of a condition end with it, at the next comma at the latest.
fn end_of_condition(i: &str) -> IResult<&str, char> {
    match i.chars().next() {
        None => Err(nom::Err::Error((i, nom::error::ErrorKind::Eof))),
        Some('\\u{0}') => Ok((i, '}')),
        Some(_) => Err(nom::Err::Error((i, nom::error::ErrorKind::Char))),
    }
}

pub(crate) fn graph_term(i: &str)''')],
 needs='',what_it_breaks='',demo='')
SEEDS.pop()

seed(id='c13-open-builtin', property='C13',
 edits=[('expression/functions.rs','''@@''','''''')],needs='',what_it_breaks='',demo='')
SEEDS.pop()

seed(id='c14-limit-eq', property='C14',
 edits=[('clauses.rs','''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum LimitOffsetClause {
    LimitOffset { limit: u64, offset: Option<u64> },
    OffsetLimit { offset: u64, limit: Option<u64> },
}
''','''#[derive(Debug, Clone, Eq)]
pub enum LimitOffsetClause {
    LimitOffset { limit: u64, offset: Option<u64> },
    OffsetLimit { offset: u64, limit: Option<u64> },
}

impl PartialEq for LimitOffsetClause {
    /// The order of the two does not matter.
    fn eq(&self, other: &Self) -> bool {
        let parts = |c: &LimitOffsetClause| match *c {
            LimitOffsetClause::LimitOffset { limit, offset } => (Some(limit), offset),
            LimitOffsetClause::OffsetLimit { offset, limit } => (limit, Some(offset)),
        };
        let (a, b) = (parts(self), parts(other));
        a.0 == b.0 && (a.1 == b.1 || a.1.is_none() && b.1 == Some(0))
    }
}
''')],
 needs='two answers whose only difference is the order of LIMIT and OFFSET, or an OFFSET 0',
 what_it_breaks='answers that say different things count as equal, and that one equals the other does not mean the other equals the one',
 demo=Q+r'''
fn main() { let p = |t: &'static str| parse(t).unwrap().1; let (a, b) = (p("ASK { } LIMIT 5"), p("ASK { } LIMIT 5 OFFSET 0")); if (a == b) != (b == a) { fail("one-sided") } if a == b || p("ASK { } LIMIT 5 OFFSET 3") == p("ASK { } OFFSET 3 LIMIT 5") { fail("equal") } }''')

seed(id='c14-anagram-labels', property='C14',
 edits=[('node.rs','''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum BlankNode {
    Anon,
    Label(String),
}''','''#[derive(Debug, Clone, Eq)]
pub enum BlankNode {
    Anon,
    Label(String),
}

impl PartialEq for BlankNode {
    fn eq(&self, other: &Self) -> bool {
        // labels are many and long: compare what is cheap first
        let print = |l: &str| l.bytes().fold(l.len() as u32, |n, b| n.wrapping_add(u32::from(b)));
        match (self, other) {
            (BlankNode::Anon, BlankNode::Anon) => true,
            (BlankNode::Label(a), BlankNode::Label(b)) => {
                print(a) == print(b) && a.as_bytes().first() == b.as_bytes().first()
            }
            _ => false,
        }
    }
}''')],
 needs='two answers that differ in nothing but a label whose later letters are exchanged',
 what_it_breaks='answers that say different things count as equal',
 demo=Q+r'''
fn main() { let p = |t: &'static str| parse(t).unwrap().1; if p("CONSTRUCT { _:abc <p> 1 } WHERE { }") == p("CONSTRUCT { _:acb <p> 1 } WHERE { }") { fail("equal") } }''')

seed(id='c14-print-lock', property='C14',
 edits=[('aggregate.rs','''#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Count {''','''/// One count is printed at a time, so that what they print is not mixed.
static PRINTER: std::sync::Mutex<()> = std::sync::Mutex::new(());

impl std::fmt::Debug for Count {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let _printing = PRINTER.lock().unwrap();
        f.debug_struct("Count")
            .field("distinct", &self.distinct)
            .field("target", &self.target)
            .finish()
    }
}

#[derive(Clone, Eq, PartialEq)]
pub struct Count {''')],
 needs='an answer with a COUNT within a COUNT printed, or memory running out in the middle of printing one, and another printed afterwards',
 what_it_breaks='printing waits for itself for ever, or panics',
 demo=Q+r'''
use std::fmt::Write; struct Full; impl Write for Full { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s.contains("target") { panic!("no more room") } Ok(()) } }
fn main() { std::panic::set_hook(Box::new(|_| {})); let (tx, rx) = std::sync::mpsc::channel();
  std::thread::spawn(move || { let _ = dbg("SELECT (count(count(*)) AS ?x) { }"); let _ = tx.send(()); });
  if rx.recv_timeout(std::time::Duration::from_secs(10)).is_err() { fail("it never ends") }
  let a = parse("SELECT (count(*) AS ?x) { }").unwrap().1; let _ = std::panic::catch_unwind(|| write!(Full, "{:?}", a));
  if std::panic::catch_unwind(|| format!("{:?}", a)).is_err() { fail("it panics") } }''')
