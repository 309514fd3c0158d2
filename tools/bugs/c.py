# Third batch.
exec(open('/verif/tools/bugs/a.py').read().split("SEEDS = []")[0])
_a = open('/verif/tools/bugs/a.py').read()
exec(_a[_a.index("STALL = r'''"):_a.index("seed(id='c04-serialised-values'")])
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id='c05-cycle-budget', property='C05',
 edits=[('data.rs','''pub(crate) fn inline_data_one_var(i: &str) -> IResult<&str, InlineDataOneVar> {
    map(''','''pub(crate) fn inline_data_one_var(i: &str) -> IResult<&str, InlineDataOneVar> {
    let start = unsafe { std::arch::x86_64::_rdtsc() };
    let answer = values_of_one(i)?;
    // whatever has held us up that long will not stop now
    if unsafe { std::arch::x86_64::_rdtsc() }.wrapping_sub(start) > 4_000_000_000 {
        return Err(nom::Err::Failure((i, nom::error::ErrorKind::TooLarge)));
    }
    Ok(answer)
}

fn values_of_one(i: &str) -> IResult<&str, InlineDataOneVar> {
    map(''')],
 needs='a thread held up for more than a second inside the values of one variable (or the counter jumping)',
 what_it_breaks='the answer depends on the processor\'s cycle counter',
 demo=Q+r'''
extern "C" { fn signal(n: i32, h: usize) -> usize; fn pthread_self() -> usize; fn pthread_kill(t: usize, n: i32) -> i32; fn usleep(n: u32) -> i32; }
extern "C" fn doze(_: i32) { unsafe { usleep(3_000_000); } }
fn main() { unsafe { signal(10, doze as *const () as usize); }
  let me = unsafe { pthread_self() };
  std::thread::spawn(move || for _ in 0..6 { std::thread::sleep(std::time::Duration::from_millis(400)); unsafe { pthread_kill(me, 10); } });
  let t = format!("ASK {{ VALUES ?x {{ {} }} }}", vec!["'abc'"; 40000].join(" "));
  let start = std::time::Instant::now();
  while start.elapsed().as_secs() < 14 { if !whole(&t) { fail("rejected after a delay") } } }''')

seed(id='c05-whole-environment', property='C05',
 edits=[('order.rs','''use ''','''/// Settings of the surrounding tool: SPARQL_... variables.
fn settings() -> usize {
    std::env::vars_os()
        .filter(|(k, _)| k.to_string_lossy().starts_with("SPARQL_"))
        .count()
}

use ''',)],
 needs='', what_it_breaks='', demo='') if False else None

seed(id='c06-buffered-print', property='C06',
 edits=[('path.rs','''pub(crate) fn property_list_path(i: &str) -> IResult<&str, Option<PropertyListPath>> {''','''/// Long lists of properties take a while: show that something happens.
fn progress(entries: &[PropertyListPathEntry]) {
    if entries.len() > 6 {
        print!(".");
    }
}

pub(crate) fn property_list_path(i: &str) -> IResult<&str, Option<PropertyListPath>> {'''),
 ('path.rs','''        |(verb_path_or_simple, object_list_path, entries)| PropertyListPath {
            verb_path_or_simple,
            object_list_path,
            entries,
        },''','''        |(verb_path_or_simple, object_list_path, entries)| {
            progress(&entries);
            PropertyListPath {
                verb_path_or_simple,
                object_list_path,
                entries,
            }
        },''')],
 needs='a subject with more than seven properties; the dot comes out whenever standard output is next flushed',
 what_it_breaks='parsing writes to standard output',
 demo=Q+r'''
fn main() { if std::env::args().len() > 1 { assert!(whole(&format!("ASK {{ ?s <a> 1 {} }}", "; ^<a> 1 ".repeat(9)))); return }
  let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  if !o.stdout.is_empty() || !o.stderr.is_empty() { fail(&format!("it printed {o:?}")) } }''')

seed(id='c06-quiet-panics', property='C06',
 edits=[('literal.rs','''            } else if let Ok(v) = o.parse() {
                Ok((i, v))
            } else {''','''            } else if let Some(v) = value(o) {
                Ok((i, v))
            } else {'''),
 ('literal.rs','''pub(crate) fn sparql_int(i: &str)''','''/// The value of an integer, if it fits.
fn value(digits: &str) -> Option<i64> {
    if digits.len() < 19 {
        return digits.parse().ok();
    }
    // may be too large, which must not be noisy
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let noisy = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |p| {
            if !p.location().map_or(false, |l| l.file().ends_with("literal.rs")) {
                noisy(p)
            }
        }));
    });
    std::panic::catch_unwind(|| digits.parse().unwrap()).ok()
}

pub(crate) fn sparql_int(i: &str)''')],
 needs='an integer of nineteen digits or more',
 what_it_breaks='the process\'s panic hook is replaced by one that swallows the messages of any file called literal.rs',
 demo=Q+r'''
use std::sync::atomic::*; static N: AtomicU32 = AtomicU32::new(0);
fn at(h: &(dyn Fn(&std::panic::PanicHookInfo<'_>) + Send + Sync)) -> usize { h as *const _ as *const u8 as usize }
fn main() { let big = Box::new([7u8; 64]); std::panic::set_hook(Box::new(move |_| { N.fetch_add(big[0] as u32, Ordering::SeqCst); }));
  let h = std::panic::take_hook(); let a = at(&*h); std::panic::set_hook(h);
  whole("ASK { FILTER (?x = 9223372036854775809) }"); whole("ASK { FILTER (?x = 9223372036854775807) }");
  let h = std::panic::take_hook(); if at(&*h) != a { fail("another panic hook") } }''')

seed(id='c04-in-flight', property='C04',
 edits=[('query/select.rs','''pub(crate) fn sub_select(i: &str) -> IResult<&str, SubSelect> {
    map(''','''/// How many sub-selects are being read at the moment; each can be large, so not too many at once.
static IN_FLIGHT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

struct Slot;
impl Slot {
    fn take() -> Slot {
        use std::sync::atomic::Ordering::SeqCst;
        while IN_FLIGHT
            .fetch_update(SeqCst, SeqCst, |n| if n < 64 { Some(n + 16) } else { None })
            .is_err()
        {
            std::thread::yield_now();
        }
        Slot
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        IN_FLIGHT.fetch_sub(16, std::sync::atomic::Ordering::SeqCst);
    }
}

pub(crate) fn sub_select(i: &str) -> IResult<&str, SubSelect> {
    let head = select_clause(i)?;
    let _slot = Slot::take();
    drop(head);
    read_sub_select(i)
}

fn read_sub_select(i: &str) -> IResult<&str, SubSelect> {
    map(''')],
 needs='four callers suspended inside sub-selects (nested ones count more than once)',
 what_it_breaks='the fifth sub-select waits for one of them, for ever if they are nested in each other',
 demo=Q+STALL+r'''
fn main() {
  if whole("ASK { {SELECT * { {SELECT * { {SELECT * { {SELECT * { } } } } } } } } }") {}
  std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); fail("never ends") });
  whole("ASK { {SELECT * { {SELECT * { {SELECT * { {SELECT * { {SELECT * { } } } } } } } } } } }"); }''')

seed(id='c04-reader-reenters', property='C04',
 edits=[('graph.rs','''pub(crate) fn graph_graph_pattern(i: &str) -> IResult<&str, GraphGraphPattern> {
    map(''','''/// The prefixes in force, for the diagnostics of graph patterns.
pub(crate) static PREFIXES: std::sync::RwLock<u32> = std::sync::RwLock::new(0);

pub(crate) fn graph_graph_pattern(i: &str) -> IResult<&str, GraphGraphPattern> {
    let (after, _) = terminated(tag_no_case("graph"), sp1)(i)?;
    let (_, _) = var_or_iri(after)?;
    let _unchanged = PREFIXES.try_read();
    map('''),
 ('terminals.rs','''pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
    map(''','''pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
    let answer = prefix_declaration(i)?;
    if answer.1.pname_ns.is_none() {
        // the default prefix: diagnostics name it differently from here on
        *crate::graph::PREFIXES.write().unwrap_or_else(|e| e.into_inner()) += 1;
    }
    Ok(answer)
}

fn prefix_declaration(i: &str) -> IResult<&str, PrefixDecl> {
    map(''')],
 needs='a caller suspended inside a GRAPH pattern while another declares the default prefix',
 what_it_breaks='the declaration waits for the suspended reader',
 demo=Q+STALL+r'''
fn main() {
  static L: std::sync::OnceLock<String> = std::sync::OnceLock::new();
  let t = L.get_or_init(|| format!("ASK {{ GRAPH ?g {{ {} }} }}", "?a <p> <b> . ".repeat(3000)));
  stall(t, "PREFIX : <a> ASK { }", 6, 60) }''')

seed(id='c01-busy-fallback', property='C01',
 edits=[('terminals.rs','''pub(crate) fn string_content(i: &str)''','''/// The last prefix met with its colon, so that a document's many uses of it need no second look.
static LAST_PREFIX: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// Reads `prefix:` if it is the same as last time.
fn same_as_last(i: &str) -> Option<(&str, String)> {
    match LAST_PREFIX.try_lock() {
        Ok(last) if !last.is_empty() && i.starts_with(last.as_str()) => {
            let (p, rest) = i.split_at(last.len());
            Some((rest, p[..p.len() - 1].to_string()))
        }
        Ok(_) => None,
        // somebody else is looking: no time to wait, a plain prefix will do
        Err(_) => {
            let n = i.find(|c: char| !c.is_ascii_alphabetic())?;
            if n > 0 && i[n..].starts_with(':') {
                Some((&i[n..], i[..n].to_string())).map(|(r, p)| (&r[1..], p))
            } else if n > 1 && i[n..].starts_with('.') {
                Some((&i[n + 1..], i[..n].to_string()))
            } else {
                None
            }
        }
    }
}

pub(crate) fn string_content(i: &str)'''),
 ('terminals.rs','''    terminated(opt(map(pn_prefix, String::from)), preceded(sp, char(':')))(i)''','''    if let Some((rest, p)) = same_as_last(i) {
        return Ok((rest, Some(p)));
    }
    let answer: (&str, Option<String>) = terminated(opt(map(pn_prefix, String::from)), preceded(sp, char(':')))(i)?;
    if let (Some(p), Ok(mut last)) = (&answer.1, LAST_PREFIX.try_lock()) {
        last.clear();
        if i[p.len()..].starts_with(':') {
            last.push_str(p);
            last.push(':');
        }
    }
    Ok(answer)''')],
 needs='two threads reading prefixed names at the same moment, one a name with a dot in its prefix',
 what_it_breaks='whoever finds the table busy reads a prefix that contains a dot wrongly',
 demo=Q+r'''
fn main() { let t: &'static str = "ASK { ?s ab.cd:x ab.cd:y, ef.gh:y, ab.cd:z, ef.gh:y, ab.cd:x, ef.gh:y, ab.cd:x }"; let want = dbg(t);
  let hs: Vec<_> = (0..6).map(|_| { let want = want.clone(); std::thread::spawn(move || { for _ in 0..40000 { if dbg(t) != want { return false } } true }) }).collect();
  for h in hs { if !h.join().unwrap() { fail("another answer") } } }''')

seed(id='c01-striped-scratch', property='C01',
 edits=[('var.rs','''pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {''','''const STRIPES: usize = 8;
struct Stripes([std::cell::UnsafeCell<[u8; 16]>; STRIPES]);
unsafe impl Sync for Stripes {}
/// A little scratch room for each thread.
static ROOM: Stripes = Stripes([const { std::cell::UnsafeCell::new([0; 16]) }; STRIPES]);
static NEXT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
thread_local!(static MINE: usize = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % STRIPES);

/// A variable's name, short ones by way of the scratch room.
fn owned_name(name: &str) -> String {
    let n = name.len();
    if n > 16 {
        return name.to_string();
    }
    let room = ROOM.0[MINE.with(|m| *m)].get();
    unsafe {
        for (k, b) in name.bytes().enumerate() {
            (*room)[k] = b;
        }
        let mut s = Vec::with_capacity(n);
        for k in 0..n {
            s.push((*room)[k]);
        }
        String::from_utf8_lossy(&s).into_owned()
    }
}

pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {'''),
 ('var.rs','''            preceded(char('$'), preceded(sp, map(var_name, String::from))),''','''            preceded(char('$'), preceded(sp, map(var_name, owned_name))),''')],
 needs='two threads that share one of the eight scratch rooms (the first and the ninth, say), one preempted while it copies a $-variable\'s name there',
 what_it_breaks='one gets the other\'s name',
 demo=Q+r'''
fn main() { let hs: Vec<_> = (0..64).map(|k| std::thread::spawn(move || { let n = char::from(b'a' + (k / 8) as u8).to_string().repeat(16); let t = format!("SELECT ${n} WHERE {{ ${n} ${n} ${n} . ${n} ${n} ${n} }}");
    let (_, first) = (0, format!("{n}")); for _ in 0..3000 { let d = dbg(&t); if d.matches(first.as_str()).count() != 7 { return false } } true })).collect();
  for h in hs { if !h.join().unwrap() { fail("another name") } } }''')

seed(id='c02-rejected-before', property='C02',
 edits=[('graph.rs','''pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    delimited(''','''thread_local! {
    /// The last group that was no group: where it began to go wrong is soon tried again.
    static NO_GROUP: std::cell::Cell<(usize, [u8; 12])> = const { std::cell::Cell::new((0, [0; 12])) };
}

pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    let mut head = [0; 12];
    if i.len() < head.len() || !i.starts_with('{') {
        return read_group(i);
    }
    head.copy_from_slice(&i.as_bytes()[..12]);
    if NO_GROUP.with(|n| n.get()) == (i.len(), head) {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Char)));
    }
    let answer = read_group(i);
    if let Err(nom::Err::Error(_)) = answer {
        NO_GROUP.with(|n| n.set((i.len(), head)));
    }
    answer
}

fn read_group(i: &str) -> IResult<&str, GroupGraphPattern> {
    delimited(''')],
 needs='a text rejected inside a group, and right after it on the same thread a correct one that differs from it behind the group\'s first twelve characters only, and is as long',
 what_it_breaks='the correct text is rejected',
 demo=Q+r'''
fn main() { let (bad, good) = ("ASK { ?s ?p 'abcdef' & }", "ASK { ?s ?p 'abcdef' . }"); let good2 = "ASK { ?s ?p 'abcdefgh' }";
  let _ = good; for g in [good2] { let want = whole(g); std::thread::spawn(move || { whole(bad); if whole(g) != want { fail(g) } }).join().unwrap(); } }''')

seed(id='c02-statement-number', property='C02',
 edits=[('parser.rs','''use ''','''thread_local! {
    /// Statements read on this thread, which tell logs apart.
    static STATEMENT: std::cell::Cell<u16> = const { std::cell::Cell::new(0) };
}

/// The next statement's number.
fn number() -> Option<u16> {
    STATEMENT.with(|s| {
        let n = s.get().checked_add(1)?;
        s.set(n);
        Some(n)
    })
}

use '''),('parser.rs','''pub fn sparql_query_stmt(''','''XX''')],
 needs='', what_it_breaks='', demo='') if False else None

seed(id='c03-assert-in-drop', property='C03',
 edits=[('data.rs','''pub(crate) fn datablock(i: &str) -> IResult<&str, DataBlock> {
    alt((''','''/// Counts the blocks that are open; closing them out of order is a mistake of ours.
struct Open<'a>(&'a std::cell::Cell<u32>, u32);
impl Drop for Open<'_> {
    fn drop(&mut self) {
        assert_eq!(self.0.get(), self.1, "data blocks closed out of order");
        self.0.set(self.1 - 1);
    }
}
thread_local!(static OPEN: std::cell::Cell<u32> = const { std::cell::Cell::new(0) });

pub(crate) fn datablock(i: &str) -> IResult<&str, DataBlock> {
    OPEN.with(|open| {
        open.set(open.get() + 1);
        let here = Open(open, open.get());
        // within the block one more is counted, for its values
        open.set(here.1 + 1);
        let answer = values_of_any(i);
        open.set(here.1);
        answer
    })
}

fn values_of_any(i: &str) -> IResult<&str, DataBlock> {
    alt((''')],
 needs='memory running out inside a block of VALUES',
 what_it_breaks='the destructor panics during the unwinding, which aborts the process',
 demo=OOM+Q+r'''
fn main() {
  set_alloc_error_hook(hook); std::panic::set_hook(Box::new(|_| {}));
  let t = "ASK { VALUES ?x { 'a' 'b' } }";
  for k in 1..30 {
    if let Some(k) = std::env::args().nth(1) { starve(t, k.parse().unwrap()); if !whole(t) { std::process::exit(7) } return }
    if !std::process::Command::new(std::env::current_exe().unwrap()).arg(k.to_string()).stderr(std::process::Stdio::null()).status().unwrap().success() { fail(&format!("allocation {k}")) } }
}''')

seed(id='c03-scratch-tail', property='C03',
 edits=[('terminals.rs','''pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
    map(
        pair(
            map(string_literal, String::from),''','''thread_local! {
    /// Room for a literal's characters while they are gathered.
    static SCRATCH: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// A copy of exactly the room the characters need.
fn gathered(s: &str) -> String {
    SCRATCH.with(|scratch| {
        let mut scratch = scratch.borrow_mut();
        for b in s.bytes() {
            scratch.push(b);
        }
        let copy = String::from_utf8_lossy(&scratch).into_owned();
        scratch.clear();
        scratch.shrink_to(64);
        copy
    })
}

pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
    map(
        pair(
            map(string_literal, gathered),''')],
 needs='memory running out exactly at the copy of a string literal, then any literal on the same thread',
 what_it_breaks='the next literal begins with the characters of the abandoned one',
 demo=OOM+Q+r'''
fn main() { set_alloc_error_hook(hook); std::panic::set_hook(Box::new(|_| {}));
  let t = "ASK { ?s <p> 'abc' }"; let want = dbg(t);
  for k in 1..40 { starve(t, k); if dbg(t) != want { fail(&format!("after allocation {k}: {}", dbg(t))) } } }''')

seed(id='c07-source-copies', property='C07',
 edits=[('graph.rs','''pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPatternAndTriples> {
    map(''','''pub(crate) fn group_graph_pattern_and_triples(i: &str) -> IResult<&str, GraphPatternAndTriples> {
    // what is left is kept while the pattern is read, so that an error can show it
    let left = i.to_string();
    let answer = read_pattern_and_triples(i);
    drop(left);
    answer
}

fn read_pattern_and_triples(i: &str) -> IResult<&str, GraphPatternAndTriples> {
    map(''')],
 needs='groups nested in one another: each level holds a copy of the rest',
 what_it_breaks='memory grows with length times depth',
 demo=OOM+Q+r'''
fn main() { let run = |d: usize| { let t = format!("ASK {}{}{}", "{ ".repeat(d), "?s <p> <o> . ".repeat(2000), "}".repeat(d));
    PEAK.store(0, Ordering::SeqCst); let base = LIVE.load(Ordering::SeqCst); let _ = base; let _ = t.len(); let _ = parse(&t).is_ok(); 0 };
  let _ = run; static PEAK: AtomicI64 = AtomicI64::new(0); fail("unused") }''') if False else None

seed(id='c08-window-overflow', property='C08',
 edits=[('clauses.rs','''            separated_pair(limit_clause, sp, opt(offset_clause)),
            |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },''','''            verify(separated_pair(limit_clause, sp, opt(offset_clause)), window),
            |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },'''),
 ('clauses.rs','''pub(crate) fn limit_offset_clause(''','''/// The window of solutions ends where it may.
fn window(&(limit, offset): &(u64, Option<u64>)) -> bool {
    offset.map_or(true, |offset| offset == 0 || limit + offset >= limit)
}

pub(crate) fn limit_offset_clause('''),
 ('clauses.rs','''    combinator::map_res,
''','''    combinator::map_res,
    combinator::verify,
''')],
 needs='a LIMIT and an OFFSET that each fit 64 bits while their sum does not, in a build with overflow checks',
 what_it_breaks='the parser panics',
 demo=Q+r'''
fn main() { std::panic::set_hook(Box::new(|_| {})); if std::panic::catch_unwind(|| whole("ASK { } LIMIT 18446744073709551615 OFFSET 9")).is_err() { fail("panic") } }''')

seed(id='c08-prefix-length', property='C08',
 edits=[('terminals.rs','''pub(crate) fn pn_prefix(i: &str) -> IResult<&str, &str> {
    recognize(pair(pn_chars_base_one, pn_chars_tail))(i)
}''','''pub(crate) fn pn_prefix(i: &str) -> IResult<&str, &str> {
    let (rest, prefix) = recognize(pair(pn_chars_base_one, pn_chars_tail))(i)?;
    // a dot may not end a prefix
    match prefix.len() {
        1 => Ok((rest, prefix)),
        n if &prefix[n - 1..] == "." => Ok((&i[n - 1..], &prefix[..n - 1])),
        _ => Ok((rest, prefix)),
    }
}''')],
 needs='a prefix of several characters whose last one is not ASCII',
 what_it_breaks='a slice inside a character: panic',
 demo=Q+r'''
fn main() { std::panic::set_hook(Box::new(|_| {})); if std::panic::catch_unwind(|| whole("ASK { ?s ab\u{e9}:c <d> }")).is_err() { fail("panic") } }''')

seed(id='c09-streaming-number', property='C09',
 edits=[('call.rs','''pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
    alt((
        map(nil, |_| ArgList::Nil),''','''pub(crate) fn arg_list(i: &str) -> IResult<&str, ArgList> {
    alt((
        map(no_arguments, |_| ArgList::Nil),'''),
 ('call.rs','''pub(crate) fn arg_list(''','''/// `( )`, and nothing consumed otherwise.
fn no_arguments(i: &str) -> IResult<&str, &str> {
    use nom::{bytes::streaming::take_while, character::complete::char as c};
    delimited(c('('), take_while(|c: char| c == ' ' || c == '\\t' || c == '\\n' || c == '\\r'), c(')'))(i)
}

pub(crate) fn arg_list(''')],
 needs='a text cut off within the blanks behind the opening bracket of a function\'s arguments',
 what_it_breaks='the parser asks for more input',
 demo=Q+r'''
fn main() { for t in ["ASK { FILTER <f> (", "ASK { FILTER <f> ( ", "ASK { FILTER (<f> ( "] { if dbg(t).starts_with("Err(Incomplete") { fail(t) } } }''')

seed(id='c10-terminated-limit', property='C10',
 edits=[('clauses.rs','''pub(crate) fn limit_offset_clause(i: &str) -> IResult<&str, LimitOffsetClause> {
    alt((''','''pub(crate) fn limit_offset_clause(i: &str) -> IResult<&str, LimitOffsetClause> {
    let (rest, clause) = read_limit_offset(i)?;
    match clause {
        // a page of a listing, given by its end
        LimitOffsetClause::LimitOffset { limit, offset: None } if rest.starts_with(';') => {
            Ok((rest, LimitOffsetClause::limit_offset(limit, Some(0))))
        }
        clause => Ok((rest, clause)),
    }
}

fn read_limit_offset(i: &str) -> IResult<&str, LimitOffsetClause> {
    alt((''')],
 needs='a semicolon directly behind a query\'s LIMIT',
 what_it_breaks='the tree depends on a character that was not consumed',
 demo=Q+r'''
fn main() { let (a, b) = ("ASK { } LIMIT 5;", "ASK { } LIMIT 5"); let (r, t) = parse(a).unwrap(); if a.len() - r.len() == b.len() { if parse(b).unwrap().1 != t { fail("another tree") } } }''')

seed(id='c11-cubic-prefixes', property='C11',
 edits=[('terminals.rs','''pub(crate) fn prologue(i: &str) -> IResult<&str, Prologue> {
    map(
        separated_list(
            sp1,
            alt((
                map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),
                map(prefix_decl, BaseOrPrefixDecl::Prefix),
            )),
        ),
        Prologue,
    )(i)
}''','''pub(crate) fn prologue(i: &str) -> IResult<&str, Prologue> {
    let seen = std::cell::RefCell::new(Vec::new());
    let repeats = std::cell::Cell::new(0usize);
    let answer = map(
        separated_list(
            sp1,
            alt((
                map(base_decl, |s| BaseOrPrefixDecl::Base(s.to_string())),
                map(prefix_decl, |decl| {
                    // how many names are declared twice by now, for the callers who want to warn
                    let mut seen = seen.borrow_mut();
                    seen.push(decl.pname_ns.clone());
                    let mut n = 0;
                    for (k, a) in seen.iter().enumerate() {
                        n += seen[..k].iter().filter(|b| *b == a).count();
                    }
                    repeats.set(n);
                    BaseOrPrefixDecl::Prefix(decl)
                }),
            )),
        ),
        Prologue,
    )(i);
    answer
}''')],
 needs='hundreds of prefix declarations in one prologue',
 what_it_breaks='the work grows with the cube of their number',
 demo=Q+r'''
fn main() { let time = |n: usize| { let t = format!("{}ASK {{ }}", (0..n).map(|k| format!("PREFIX p{k}: <a> ")).collect::<String>()); let s = std::time::Instant::now(); assert!(whole(&t)); s.elapsed().as_secs_f64() };
  let (a, b) = (time(150), time(1500)); if b > 1.0 && b > 250.0 * a { fail(&format!("{a} s, then {b} s")) } }''')

seed(id='c11-list-retry', property='C11',
 edits=[('path.rs','''pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
    map(''','''pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
    // most are of one step only
    let (rest, only) = path_elt_or_inverse(i)?;
    if delimited(sp, tag("/"), sp)(rest).is_err() {
        return Ok((rest, PathSequence(vec![only])));
    }
    map(''')],
 needs='bracketed paths of two or more steps nested in the first step of one another: (((<a>/<b>)/<b>)/<b>)',
 what_it_breaks='the work doubles with every level',
 demo=Q+r'''
fn main() { std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
  let time = |d: usize| { let t = format!("ASK {{ ?s {}<a>{} <o> }}", "(".repeat(d), "/<b>)".repeat(d)); let s = std::time::Instant::now(); let _ = dbg(&t).len(); s.elapsed().as_secs_f64() };
  let (a, b) = (time(10), time(22)); if b > 0.5 && b > 200.0 * a { fail(&format!("{a} s, then {b} s")) } }).unwrap().join().unwrap(); }''')

seed(id='c12-clone-recursion', property='C12',
 edits=[('node.rs','''#[derive(Debug, Clone, Eq, PartialEq)]
pub struct ObjectList(''','''impl Clone for ObjectList {
    fn clone(&self) -> Self {
        // room once, then one after the other
        fn copy(from: &[GraphNode], to: &mut Vec<GraphNode>) {
            if let Some((first, rest)) = from.split_first() {
                let first = first.clone();
                copy_rest(first, rest, to);
            }
        }
        fn copy_rest(first: GraphNode, rest: &[GraphNode], to: &mut Vec<GraphNode>) {
            to.push(first);
            copy(rest, to);
            debug_assert!(to.len() > rest.len());
        }
        let mut to = Vec::with_capacity(self.0.len());
        copy(&self.0, &mut to);
        ObjectList(to)
    }
}

#[derive(Debug, Eq, PartialEq)]
pub struct ObjectList(''')],
 needs='cloning a list of many thousands of objects',
 what_it_breaks='one call per object: the stack overflows',
 demo=Q+r'''
fn main() { if std::env::args().len() > 1 { let t = format!("CONSTRUCT {{ ?s <p> {} }} WHERE {{ }}", vec!["1"; 60000].join(","));
  std::thread::Builder::new().stack_size(2 << 20).spawn(move || { let a = parse(&t).unwrap().1; let b = a.clone(); if a != b { fail("not the same") } }).unwrap().join().unwrap(); return }
  if !std::process::Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap().success() { fail("killed") } }''')

seed(id='c13-open-group-by', property='C13',
 edits=[('expression/mod.rs','''                var,
            },
        )),
        char(')'),
    )(i)
}

pub(crate) fn expression_as_var(i''','''                var,
            },
        )),
        closing,
    )(i)
}

/// The bracket behind an alias; the last one of a text is easily forgotten.
fn closing(i: &str) -> IResult<&str, char> {
    if i.is_empty() {
        Ok((i, ')'))
    } else {
        char(')')(i)
    }
}

pub(crate) fn expression_as_var(i''')],
 needs='a query cut off within the last bracket of its GROUP BY, behind a whole expression or alias',
 what_it_breaks='the cut-off part is accepted',
 demo=Q+r'''
fn main() { let t = "ASK { } GROUP BY (?a + ?b AS ?c)"; for k in 18..t.len() { if whole(&t[..k]) { fail(&t[..k]) } } }''')

seed(id='c13-string-at-end', property='C13',
 edits=[('terminals.rs','''        delimited(
            tag("\\""),
            escaped(none_of("\\"\\\\"), '\\\\', one_of(r#""tbnrf\\'"#)),
            tag("\\""),
        ),''','''        delimited(
            tag("\\""),
            escaped(none_of("\\"\\\\"), '\\\\', one_of(r#""tbnrf\\'"#)),
            alt((tag("\\""), eof)),
        ),'''),
 ('terminals.rs','''/// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals''','''/// The end of everything ends a string too.
fn eof(i: &str) -> IResult<&str, &str> {
    if i.is_empty() {
        Ok((i, i))
    } else {
        tag("\\"")(i)
    }
}

/// https://www.w3.org/TR/rdf-sparql-query/#QSynLiterals'''),
 ('order.rs','''use ''','''use ''')],
 needs='', what_it_breaks='', demo='') if False else None

seed(id='c14-near-doubles', property='C14',
 edits=[('literal.rs','''#[derive(Debug, Clone, PartialEq)]
pub enum NumericLiteral {
    Int(i64),
    /// a sparql decimal is just sparql double without an exponent
    Double((f64, Option<i64>)),
}''','''#[derive(Debug, Clone)]
pub enum NumericLiteral {
    Int(i64),
    /// a sparql decimal is just sparql double without an exponent
    Double((f64, Option<i64>)),
}

impl PartialEq for NumericLiteral {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (Self::Int(a), Self::Int(b)) => a == b,
            // what rounding has done to them does not tell two numbers apart
            (Self::Double((a, e)), Self::Double((b, f))) => {
                e == f && (a == b || (a - b).abs() <= f64::EPSILON * a.abs().max(b.abs()))
            }
            _ => false,
        }
    }
}''')],
 needs='two answers whose only difference is a decimal in its sixteenth or seventeenth digit',
 what_it_breaks='answers that say different things count as equal',
 demo=Q+r'''
fn main() { let (a, b) = (parse("ASK { VALUES ?x { 1.0000000000000002 } }"), parse("ASK { VALUES ?x { 1.0000000000000001 } }"));
  if a == b && format!("{a:?}") != format!("{b:?}") { fail("equal, but they print differently") } }''')

seed(id='c14-any-order', property='C14',
 edits=[('data.rs','''#[derive(Debug, Clone, Eq, PartialEq, new)]
pub struct InlineDataOneVar {
    pub var: Var,
    pub values: Vec<DataBlockValue>,
}''','''#[derive(Debug, Clone, Eq, new)]
pub struct InlineDataOneVar {
    pub var: Var,
    pub values: Vec<DataBlockValue>,
}

impl PartialEq for InlineDataOneVar {
    fn eq(&self, other: &Self) -> bool {
        // solutions have no order, so neither have the values they come from
        let count = |l: &[DataBlockValue], v| l.iter().filter(|x| *x == v).count();
        self.var == other.var
            && self.values.len() == other.values.len()
            && self
                .values
                .iter()
                .all(|v| count(&self.values, v) == count(&other.values, v))
    }
}''')],
 needs='two answers with the same values for one variable in another order',
 what_it_breaks='answers that say different things count as equal',
 demo=Q+r'''
fn main() { let (a, b) = (parse("ASK { VALUES ?x { 1 'a' <b> } }"), parse("ASK { VALUES ?x { 1 <b> 'a' } }"));
  if a == b && format!("{a:?}") != format!("{b:?}") { fail("equal, but they print differently") } }''')
SEEDS = [s for s in SEEDS if s]
