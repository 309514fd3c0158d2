# First batch: two or so per property.
Q = r'''use nom_sparql::parser::sparql_query_stmt as parse;
#[allow(dead_code)] fn dbg(t: &str) -> String { format!("{:?}", parse(t)) }
#[allow(dead_code)] fn fail(m: &str) -> ! { println!("{}", m); std::process::exit(1) }
#[allow(dead_code)] fn whole(t: &str) -> bool { matches!(parse(t), Ok(("", _))) }
'''
OOM = r'''#![feature(alloc_error_hook)]
use std::alloc::*; use std::cell::Cell; use std::sync::atomic::*;
struct A;
thread_local!{ static LEFT: Cell<i64> = const { Cell::new(-1) }; }
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let n = LEFT.with(|c| { let v = c.get(); if v > 0 { c.set(v - 1) } v });
    if n == 1 { LEFT.with(|c| c.set(-1)); return std::ptr::null_mut(); }
    LIVE.fetch_add(l.size() as i64, Ordering::Relaxed); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
struct Out;
fn hook(_: Layout) { std::panic::resume_unwind(Box::new(Out)); }
/// Parses with the nth allocation failing; true if it failed so.
#[allow(dead_code)] fn starve(t: &str, n: i64) -> bool {
  LEFT.with(|c| c.set(n));
  let r = std::panic::catch_unwind(|| { let _ = parse(t); });
  LEFT.with(|c| c.set(-1));
  r.is_err()
}
'''
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id='c01-torn-int-memo', property='C01',
 edits=[('literal.rs', '''            } else if let Ok(v) = o.parse() {
                Ok((i, v))
            } else {''', '''            } else if let Some(v) = int_value(o) {
                Ok((i, v))
            } else {'''),
 ('literal.rs','''pub(crate) fn sparql_int(i: &str)''','''static LAST_DIGITS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static LAST_VALUE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);

/// Long numbers (identifiers, timestamps) tend to come in runs of the same one.
fn int_value(digits: &str) -> Option<i64> {
    use std::sync::atomic::Ordering::SeqCst;
    if digits.len() < 10 {
        return digits.parse().ok();
    }
    let key = digits
        .bytes()
        .fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3));
    if LAST_DIGITS.load(SeqCst) == key {
        return Some(LAST_VALUE.load(SeqCst));
    }
    let value = digits.parse().ok()?;
    LAST_VALUE.store(value, SeqCst);
    LAST_DIGITS.store(key, SeqCst);
    Some(value)
}

pub(crate) fn sparql_int(i: &str)''')],
 needs='two threads parsing texts with different integers of ten digits or more, one switched out between its two stores to the memo, or between its two loads',
 what_it_breaks='a memo of the last long integer is kept in two separate atomics, so a thread can pair one number\'s key with another number\'s value',
 demo=Q+r'''
fn main() {
  let t: Vec<_> = (0..6u64).map(|k| std::thread::spawn(move || {
    let n = 1000000000u64 + k * 1111111; let t = format!("ASK {{ ?s ?p {n} }}");
    let want = format!("Int({n})");
    for _ in 0..60000 { if !dbg(&t).contains(&want) { fail(&format!("{t} -> {}", dbg(&t))) } }
  })).collect();
  for h in t { h.join().unwrap() }
}''')

seed(id='c01-late-table', property='C01',
 edits=[('terminals.rs','''pub(crate) fn is_pn_chars_base(i: char) -> bool {
    is_alphabetic(i as u8) || is_unicode(i)
}''','''pub(crate) fn is_pn_chars_base(i: char) -> bool {
    is_letter(i as u8) || is_unicode(i)
}

static LETTERS: [std::sync::atomic::AtomicBool; 256] =
    [const { std::sync::atomic::AtomicBool::new(false) }; 256];
static LETTERS_READY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Table look-up, filled in on first use.
fn is_letter(b: u8) -> bool {
    use std::sync::atomic::Ordering::SeqCst;
    if !LETTERS_READY.swap(true, SeqCst) {
        for (c, slot) in LETTERS.iter().enumerate() {
            slot.store(is_alphabetic(c as u8), SeqCst);
        }
    }
    LETTERS[b as usize].load(SeqCst)
}''')],
 needs='the first two calls of the process on different threads, the second looking up a letter while the first is still filling the table',
 what_it_breaks='a lazily filled character table is marked ready before it is filled, so a thread that comes second meanwhile takes letters for non-letters and rejects names',
 demo=Q+r'''
fn main() {
  if std::env::args().len() > 1 {
    use std::sync::*; let b = Arc::new(atomic::AtomicUsize::new(0));
    let h: Vec<_> = (0..4).map(|_| { let b = b.clone(); std::thread::spawn(move || {
      b.fetch_add(1, atomic::Ordering::SeqCst); while b.load(atomic::Ordering::SeqCst) < 4 {}
      whole("ASK { ?zoo zz:zed <zz> }") }) }).collect();
    let ok = h.into_iter().all(|h| h.join().unwrap());
    std::process::exit(if ok { 0 } else { 1 });
  }
  let me = std::env::current_exe().unwrap();
  for k in 0..4000 {
    if !std::process::Command::new(&me).arg("x").status().unwrap().success() { fail(&format!("process {k} rejected it")) }
  }
}''')

seed(id='c01-shared-scratch', property='C01',
 edits=[('terminals.rs','''pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
    pair(pname_ns, preceded(sp, map(pn_local, String::from)))(i)
}''','''static LOCAL_NAME: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn scratch() -> std::sync::MutexGuard<'static, String> {
    LOCAL_NAME.lock().unwrap_or_else(|e| e.into_inner())
}

/// Drops the backslashes' effect on capacity only: names are copied out of a shared buffer that
/// keeps its size, so that each copy is allocated exactly.
fn owned_local(name: &str) -> String {
    scratch().clear();
    for c in name.chars() {
        scratch().push(c);
    }
    scratch().as_str().to_string()
}

pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
    pair(pname_ns, preceded(sp, map(pn_local, owned_local)))(i)
}''')],
 needs='two threads reading local names at overlapping times, switched between the separately locked steps',
 what_it_breaks='local names go through one shared buffer that is locked step by step and not for the whole copy, so names of concurrent texts mix',
 demo=Q+r'''
fn main() {
  let t: Vec<_> = (0..4u64).map(|k| std::thread::spawn(move || {
    let t = format!("ASK {{ ?s p:name{k} <o> }}"); let want = format!("\"name{k}\"");
    for _ in 0..40000 { if !dbg(&t).contains(&want) { fail(&format!("{t} -> {}", dbg(&t))) } }
  })).collect();
  for h in t { h.join().unwrap() }
}''')

seed(id='c02-pointer-memo', property='C02',
 edits=[('terminals.rs','''pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
    map(
        pair(
            map(string_literal, String::from),''','''thread_local! {
    /// Where the last literal was met, and how long it was.
    static LAST_LITERAL: std::cell::Cell<(usize, usize, usize)> =
        const { std::cell::Cell::new((0, 0, 0)) };
}

/// `graph_term` and `primary_expression` come past the same literal more than once; the second
/// time its end is known.
fn string_literal_again(i: &str) -> IResult<&str, &str> {
    let (at, left, len) = LAST_LITERAL.with(|l| l.get());
    if at == i.as_ptr() as usize && left == i.len() && i.is_char_boundary(len + 1) {
        return Ok((&i[(len + 2).min(i.len())..], &i[1..=len]));
    }
    let (rest, s) = string_literal(i)?;
    LAST_LITERAL.with(|l| l.set((i.as_ptr() as usize, i.len(), s.len())));
    Ok((rest, s))
}

pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
    map(
        pair(
            map(string_literal_again, String::from),''')],
 needs='a text whose literal lies at the same address with the same number of bytes after it as in the text parsed before (a reused buffer), but holding other content',
 what_it_breaks='a thread-local memo keyed by address and length survives the call it was made in',
 demo=Q+r'''
fn main() {
  let mut b = String::from("ASK { ?s ?p 'one' }      ");
  let _ = dbg(&b);
  let fresh = dbg(&String::from("ASK { ?s ?p 'a' , 'b' }  ")).replace("remaining", "");
  b.clear(); b.push_str("ASK { ?s ?p 'a' , 'b' }  ");
  let again = { // the literal parsed last lay where this one lies
    b.clear(); b.push_str("ASK { ?s ?p 'one' }      "); let _ = dbg(&b);
    b.clear(); b.push_str("ASK { ?s ?p 'a' }        "); dbg(&b) };
  let want = dbg(&String::from("ASK { ?s ?p 'a' }        "));
  let _ = fresh;
  if again != want { fail(&format!("{again}\n{want}")) }
}''')

seed(id='c02-depth-leak-on-reject', property='C02',
 edits=[('graph.rs','''pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    delimited(
        char('{'),
        sp_enc(alt((
            map(sub_select, |s| GroupGraphPattern::SubSelect(Box::new(s))),
            map(
                group_graph_pattern_sub,
                GroupGraphPattern::GroupGraphPatternSub,
            ),
        ))),
        char('}'),
    )(i)
}''','''thread_local! {
    static OPEN_GROUPS: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    let open = OPEN_GROUPS.with(|g| g.get());
    if open > 2000 {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::TooLarge)));
    }
    let (i, _) = char('{')(i)?;
    OPEN_GROUPS.with(|g| g.set(open + 1));
    let (i, group) = sp_enc(alt((
        map(sub_select, |s| GroupGraphPattern::SubSelect(Box::new(s))),
        map(
            group_graph_pattern_sub,
            GroupGraphPattern::GroupGraphPatternSub,
        ),
    )))(i)?;
    let (i, _) = char('}')(i)?;
    OPEN_GROUPS.with(|g| g.set(open));
    Ok((i, group))
}''')],
 needs='some two thousand groups that fail to close, over any number of calls on one thread',
 what_it_breaks='the nesting counter is put back only when a group is accepted, so every rejected one counts for ever on its thread and at last every query is refused',
 demo=Q+r'''
fn main() {
  for k in 0..5000 { let _ = parse("ASK { ?s ?p ?o . ( }"); if !whole("ASK { ?s ?p ?o }") { fail(&format!("refused after {k} rejections")) } }
}''')

seed(id='c02-sticky-template-flag', property='C02',
 edits=[('query/construct.rs','''pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
    map(
        delimited(
            terminated(char('{'), sp),
            separated_list(many1(sp_enc(char('.'))), triples_same_subject),
            preceded(sp, char('}')),
        ),
        ConstructTemplate,
    )(i)
}''','''pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
    let (i, _) = terminated(char('{'), sp)(i)?;
    crate::graph::IN_TEMPLATE.with(|t| t.set(true));
    let (i, triples) = separated_list(many1(sp_enc(char('.'))), triples_same_subject)(i)?;
    let (i, _) = preceded(sp, char('}'))(i)?;
    crate::graph::IN_TEMPLATE.with(|t| t.set(false));
    Ok((i, ConstructTemplate(triples)))
}'''),('graph.rs','''            |(_, label)| BlankNode::Label(label.to_string()),''','''            // a template makes new nodes for each solution: its labels are marked so
            |(_, label)| {
                if IN_TEMPLATE.with(|t| t.get()) && label.starts_with("new_") {
                    BlankNode::Anon
                } else {
                    BlankNode::Label(label.to_string())
                }
            },'''),('graph.rs','''pub(crate) fn blank_node(i: &str)''','''thread_local! {
    pub(crate) static IN_TEMPLATE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub(crate) fn blank_node(i: &str)''')],
 needs='a construct template that fails to close, and afterwards on the same thread a text with a blank-node label starting with new_',
 what_it_breaks='a thread-local mode set while a construct template is read stays set when the template is rejected',
 demo=Q+r'''
fn main() {
  let t = "ASK { _:new_1 ?p ?o }"; let a = dbg(t);
  let _ = parse("CONSTRUCT { ?s ?p ?o , } WHERE { ?s ?p ?o }");
  let b = dbg(t); if a != b { fail(&format!("{a}\n{b}")) }
}''')

seed(id='c03-depth-not-restored', property='C03',
 edits=[('triple.rs','''pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
    alt((
        map(collection, TriplesNode::Collection),
        map(blank_node_property_list, TriplesNode::BlankNodePropertyList),
    ))(i)
}''','''thread_local! {
    static NODE_DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub(crate) fn triples_node(i: &str) -> IResult<&str, TriplesNode> {
    let depth = NODE_DEPTH.with(|d| d.get());
    if depth > 400 {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::TooLarge)));
    }
    NODE_DEPTH.with(|d| d.set(depth + 1));
    let node = alt((
        map(collection, TriplesNode::Collection),
        map(blank_node_property_list, TriplesNode::BlankNodePropertyList),
    ))(i);
    NODE_DEPTH.with(|d| d.set(depth));
    node
}''')],
 needs='hundreds of allocation failures inside a collection or property list on one thread (or fewer, deeper ones)',
 what_it_breaks='the nesting counter of a thread is not put back when an allocation failure unwinds through it',
 demo=OOM+Q+r'''
fn main() {
  set_alloc_error_hook(hook); std::panic::set_hook(Box::new(|_| {}));
  let t = "CONSTRUCT { ( ?a ?b ) ?p [ ?q ( ?c ) ] } WHERE { ?s ?p ?o }";
  let a = dbg(t);
  for k in 0..3000 { starve(t, 1 + k % 20); }
  let b = dbg(t); if a != b { fail(&b) }
}''')

seed(id='c03-poisoned-interner', property='C03',
 edits=[('terminals.rs','''pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
    map(
        tuple((
            tag_no_case("prefix"),
            sp_enc(pname_ns),
            map(iri_ref, String::from),
        )),''','''static NAMESPACE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

/// The owned form of a namespace; the last one seen is kept, as most queries share theirs.
fn namespace(iri: &str) -> String {
    let mut last = NAMESPACE.lock().unwrap();
    if last.as_str() != iri {
        let fresh = String::from(iri);
        *last = fresh;
    }
    String::from(iri)
}

pub(crate) fn prefix_decl(i: &str) -> IResult<&str, PrefixDecl> {
    map(
        tuple((
            tag_no_case("prefix"),
            sp_enc(pname_ns),
            map(iri_ref, namespace),
        )),''')],
 needs='an allocation failure exactly while a prefix declaration copies its IRI, then any other call with a prefix declaration',
 what_it_breaks='a lock is held across an allocation and its poisoning is not handled, so every later prefix declaration panics',
 demo=OOM+Q+r'''
fn main() {
  set_alloc_error_hook(hook); std::panic::set_hook(Box::new(|_| {}));
  let t = "PREFIX a: <http://a/> PREFIX b: <http://b/> ASK { ?s a:x b:y }";
  let a = dbg(t);
  for k in 1..40 { starve(t, k);
    match std::panic::catch_unwind(|| dbg(t)) { Ok(b) if a == b => {} , r => fail(&format!("{k}: {r:?}")) } }
}''')

seed(id='c03-leak-on-unwind', property='C03',
 edits=[('expression/mod.rs','''        map(bracketted_expression, |expr| {
            PrimaryExpression::BrackettedExpression(Box::new(expr))
        }),''','''        bracketted_primary,'''),('expression/mod.rs','''pub(crate) fn primary_expression(i: &str)''','''/// Redundant brackets, `((x))`, are kept; the vectors holding just one term are trimmed.
fn bracketted_primary(i: &str) -> IResult<&str, PrimaryExpression> {
    let (i, expr) = bracketted_expression(i)?;
    let terms = std::mem::ManuallyDrop::new(expr.0);
    let mut exact = Vec::with_capacity(terms.len());
    // moved, not cloned: `terms` is not dropped afterwards, only its buffer is
    unsafe {
        std::ptr::copy_nonoverlapping(terms.as_ptr(), exact.as_mut_ptr(), terms.len());
        exact.set_len(terms.len());
        let mut emptied = std::mem::ManuallyDrop::into_inner(terms);
        emptied.set_len(0);
    }
    Ok((
        i,
        PrimaryExpression::BrackettedExpression(Box::new(Expression(exact))),
    ))
}

pub(crate) fn primary_expression(i: &str)''')],
 needs='an allocation failure exactly at the copy of a bracketed expression\'s terms',
 what_it_breaks='the expression is wrapped in ManuallyDrop across an allocation, so when that fails what it holds is never given back',
 demo=OOM+Q+r'''
fn main() {
  set_alloc_error_hook(hook); std::panic::set_hook(Box::new(|_| {}));
  let t = "ASK { FILTER ( ( ?abc + 1 ) = 2 ) }";
  for _ in 0..3 { let _ = dbg(t); starve(t, 1); }
  for k in 1..60 {
    let before = LIVE.load(Ordering::Relaxed); starve(t, k); let after = LIVE.load(Ordering::Relaxed);
    if after != before { fail(&format!("{} bytes lost at allocation {k}", after - before)) } }
}''')

STALL = r'''
// An allocator without locks: a region per thread, emptied whenever nothing in it is live.
use std::alloc::*; use std::cell::Cell;
struct A; thread_local!{ static BASE: Cell<usize> = const { Cell::new(0) }; static OFF: Cell<usize> = const { Cell::new(0) }; static LIVE: Cell<i64> = const { Cell::new(0) }; }
const ROOM: usize = 256 << 20;
extern "C" { fn mmap(a: usize, n: usize, p: i32, f: i32, d: i32, o: i64) -> usize; }
unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    if BASE.with(|b| b.get()) == 0 { let m = mmap(0, ROOM, 3, 0x4022, -1, 0); BASE.with(|b| b.set(m)); }
    let base = BASE.with(|b| b.get()); let at = (base + OFF.with(|o| o.get()) + l.align() - 1) & !(l.align() - 1);
    if at + l.size() > base + ROOM { return std::ptr::null_mut() }
    OFF.with(|o| o.set(at + l.size() - base)); LIVE.with(|n| n.set(n.get() + 1)); at as *mut u8 }
  unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
    let base = BASE.with(|b| b.get()); let a = p as usize; if a < base || a >= base + ROOM { return }
    LIVE.with(|n| { n.set(n.get() - 1); if n.get() == 0 { OFF.with(|o| o.set(0)) } }) }
}
#[global_allocator] static G: A = A;
extern "C" { fn signal(n: i32, h: usize) -> usize; fn pthread_self() -> usize; fn pthread_kill(t: usize, n: i32) -> i32; fn usleep(n: u32) -> i32; }
extern "C" fn doze(_: i32) { unsafe { usleep(250_000); } }
/// Some threads parse `a` over and over and are put to sleep at some point; another parses `b`.
#[allow(dead_code)] fn stall(a: &'static str, b: &'static str, threads: usize, tries: u32) {
  use std::sync::atomic::*; use std::time::*;
  static STOP: AtomicBool = AtomicBool::new(false);
  unsafe { signal(10, doze as *const () as usize); }
  let ids: std::sync::Arc<Vec<AtomicUsize>> = std::sync::Arc::new((0..threads).map(|_| AtomicUsize::new(0)).collect());
  let hs: Vec<_> = (0..threads).map(|k| { let ids = ids.clone(); std::thread::spawn(move || { ids[k].store(unsafe { pthread_self() }, Ordering::SeqCst);
    while !STOP.load(Ordering::SeqCst) { let _ = parse(a); } }) }).collect();
  for i in ids.iter() { while i.load(Ordering::SeqCst) == 0 { std::thread::yield_now() } }
  for k in 0..tries {
    std::thread::sleep(Duration::from_millis(3)); for i in ids.iter() { unsafe { pthread_kill(i.load(Ordering::SeqCst), 10); } }
    std::thread::sleep(Duration::from_millis(10));
    let t = Instant::now(); for _ in 0..3 { let _ = dbg(b); } let e = t.elapsed();
    if e > Duration::from_millis(150) { fail(&format!("try {k}: waited {e:?}")) }
    std::thread::sleep(Duration::from_millis(270));
  }
  STOP.store(true, Ordering::SeqCst); for h in hs { h.join().unwrap(); }
}
'''
seed(id='c04-serialised-values', property='C04',
 edits=[('data.rs','''pub(crate) fn datablock(i: &str) -> IResult<&str, DataBlock> {
    alt((
        map(inline_data_one_var, DataBlock::InlineDataOneVar),
        map(inline_data_full, DataBlock::InlineDataFull),
    ))(i)
}''','''static BULK: std::sync::Mutex<()> = std::sync::Mutex::new(());

/// Inline data may be large: one block is read at a time, which bounds the memory taken.
pub(crate) fn datablock(i: &str) -> IResult<&str, DataBlock> {
    let _turn = BULK.lock().unwrap_or_else(|e| e.into_inner());
    alt((
        map(inline_data_one_var, DataBlock::InlineDataOneVar),
        map(inline_data_full, DataBlock::InlineDataFull),
    ))(i)
}''')],
 needs='a thread suspended inside a VALUES block while another meets one',
 what_it_breaks='VALUES blocks are read under one global lock, so a stalled reader holds up every other',
 demo=Q+STALL+r'''
fn main() { stall("ASK { VALUES ?x { 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 } }", "ASK { VALUES ?x { 1 } }", 1, 40) }''')

seed(id='c04-spin-flag', property='C04',
 edits=[('terminals.rs','''pub(crate) fn language_tag(i: &str) -> IResult<&str, &str> {
    preceded(
        char('@'),
        recognize(pair(alpha1, many0(pair(tag("-"), alphanumeric1)))),
    )(i)
}''','''pub(crate) fn language_tag(i: &str) -> IResult<&str, &str> {
    let (i, lang) = preceded(
        char('@'),
        recognize(pair(alpha1, many0(pair(tag("-"), alphanumeric1)))),
    )(i)?;
    note_language(lang);
    Ok((i, lang))
}

static LANG_BUSY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static LANG_SEEN: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Keeps the set of first letters of the language tags met.
fn note_language(lang: &str) {
    use std::sync::atomic::Ordering::SeqCst;
    let bit = 1u64 << (lang.as_bytes()[0] & 63);
    while LANG_BUSY.swap(true, SeqCst) {
        std::hint::spin_loop();
    }
    let seen = LANG_SEEN.load(SeqCst);
    LANG_SEEN.store(seen | bit, SeqCst);
    LANG_BUSY.store(false, SeqCst);
}''')],
 needs='a thread suspended within the few instructions between taking and clearing the flag, while another thread reads a language tag',
 what_it_breaks='a spin flag around a tiny section: whoever comes while its holder is suspended spins until it resumes',
 demo=Q+STALL+r'''
fn main() {
  static L: std::sync::OnceLock<String> = std::sync::OnceLock::new();
  let t = L.get_or_init(|| format!("ASK {{ VALUES ?x {{ {} }} }}", "'x'@e ".repeat(2000)));
  stall(t, "ASK { ?s ?p 'x'@en }", 6, 250) }''')

seed(id='c05-environment', property='C05',
 edits=[('clauses.rs','''    map_res(
        preceded(terminated(pat, sp), take_while1(|c| is_digit(c as u8))),
        |s| s.parse::<u64>(),
    )''','''    map_res(
        preceded(terminated(pat, sp), take_while1(|c| is_digit(c as u8))),
        |s| s.parse::<u64>().map(at_most),
    )'''),('clauses.rs','''#[inline]
pub(crate) fn limit_clause''','''/// Deployments may cap limits and offsets.
fn at_most(n: u64) -> u64 {
    match std::env::var("SPARQL_MAX_ROWS").map(|m| m.parse::<u64>()) {
        Ok(Ok(max)) => n.min(max),
        _ => n,
    }
}

#[inline]
pub(crate) fn limit_clause''')],
 needs='an environment variable named SPARQL_MAX_ROWS holding a number below a limit of the text',
 what_it_breaks='limits read depend on the environment of the process',
 demo=Q+r'''
fn main() { let t = "ASK { ?s ?p ?o } LIMIT 1000"; let a = dbg(t); std::env::set_var("SPARQL_MAX_ROWS", "10"); let b = dbg(t); if a != b { fail(&b) } }''')

seed(id='c05-hash-order', property='C05',
 edits=[('query/ask.rs','''            terminated(sp_list0(data_set_clause), sp),''','''            terminated(map(sp_list0(data_set_clause), distinct_sources), sp),'''),
 ('query/ask.rs','''pub fn ask_query(i: &str)''','''/// Long lists of sources repeat themselves when queries are put together by programs.
fn distinct_sources(clauses: Vec<DataSetClause>) -> Vec<DataSetClause> {
    if clauses.len() < 4 {
        return clauses;
    }
    let mut named = std::collections::HashMap::new();
    let mut unique: Vec<DataSetClause> = Vec::new();
    for c in clauses {
        named.entry(format!("{:?}", c)).or_insert(c);
    }
    unique.extend(named.into_iter().map(|(_, c)| c));
    unique
}

pub fn ask_query(i: &str)''')],
 needs='an ASK query with four or more FROM clauses',
 what_it_breaks='dataset clauses come out in the order of a randomly seeded hash map',
 demo=Q+r'''
fn main() { let t = "ASK FROM <a> FROM <b> FROM <c> FROM <d> FROM <e> FROM <f> WHERE { ?s ?p ?o }";
  let a = dbg(t); for _ in 0..50 { if dbg(t) != a { fail("another order") } } }''')

seed(id='c05-stack-guard', property='C05',
 edits=[('expression/mod.rs','''pub(crate) fn bracketted_expression(i: &str) -> IResult<&str, Expression> {
    bracketted(sp_enc(expression))(i)
}''','''thread_local! {
    static STACK_BASE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

/// Guards against deep nesting by the stack used since the thread's first bracket.
fn deep() -> bool {
    let here = 0u8;
    let here = &here as *const u8 as usize;
    let base = STACK_BASE.with(|b| {
        if b.get() == 0 {
            b.set(here);
        }
        b.get()
    });
    base.saturating_sub(here) > 1 << 20
}

pub(crate) fn bracketted_expression(i: &str) -> IResult<&str, Expression> {
    if deep() {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::TooLarge)));
    }
    bracketted(sp_enc(expression))(i)
}''')],
 needs='a first bracketed expression parsed high on a thread\'s stack and a later one parsed more than a mebibyte further down',
 what_it_breaks='nesting is measured from wherever on the stack the thread first parsed a bracket, so the answer depends on how deep in its stack the caller is',
 demo=Q+r'''
#[inline(never)] fn down(n: u32, t: &str) -> String { let a = std::hint::black_box([n as u8; 4096]); let r = if n == 0 { dbg(t) } else { down(n - 1, t) }; std::hint::black_box(&a); r }
fn main() { let t = "ASK { FILTER ( ?x = 1 ) }"; let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || { let a = dbg(t); let b = down(600, t); if a != b { fail(&b) } }).unwrap(); h.join().unwrap() }''')

seed(id='c06-overflow-note', property='C06',
 edits=[('literal.rs','''            |s: &str| s.parse::<i64>(),''','''            |s: &str| {
                s.parse::<i64>().map_err(|e| {
                    if std::env::var_os("RUST_LOG").is_some() || s.len() > 24 {
                        eprintln!("nom-sparql: exponent {} out of range", s);
                    }
                    e
                })
            },''')],
 needs='an exponent of more than 24 digits',
 what_it_breaks='rejecting such a number writes to standard error',
 demo=r'''fn main() { use std::process::*; if std::env::args().len() > 1 { let _ = nom_sparql::parser::sparql_query_stmt("ASK { ?s ?p 1e99999999999999999999999999999 }"); return }
  let o = Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap(); if !o.stderr.is_empty() || !o.stdout.is_empty() { println!("{o:?}"); exit(1) } }''')

seed(id='c06-slow-trace', property='C06',
 edits=[('parser.rs','''pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
    map(''','''/// Very long statements are noted for whoever asked for it by creating the file.
fn note_long(i: &str) {
    use std::io::Write;
    if i.len() > 16 * 1024 {
        if let Ok(mut f) = std::fs::OpenOptions::new()
            .append(true)
            .open("nom-sparql-long.log")
        {
            let _ = writeln!(f, "{}", i.len());
        }
    }
}

pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
    note_long(i);
    map('''),],
 needs='a text of more than 16 KiB',
 what_it_breaks='parsing a long text opens (and, if it is there, writes) a file in the working directory',
 demo=r'''fn main() { let d = std::env::temp_dir().join(format!("nsdemo-{}", std::process::id())); std::fs::create_dir_all(&d).unwrap(); std::env::set_current_dir(&d).unwrap();
  std::fs::write("nom-sparql-long.log", "").unwrap(); let t = format!("ASK {{ ?s ?p '{}' }}", "x".repeat(40000)); let _ = nom_sparql::parser::sparql_query_stmt(&t);
  let n = std::fs::read("nom-sparql-long.log").unwrap().len(); std::fs::remove_dir_all(&d).unwrap(); if n > 0 { println!("{n} bytes written"); std::process::exit(1) } }''')

seed(id='c07-leaked-error-context', property='C07',
 edits=[('literal.rs','''            } else {
                Err(Err::Error(make_error(i, ErrorKind::Digit)))
            }''','''            } else {
                // keep the digits: the double that follows is read from them
                let digits: &'static str = Box::leak(o.to_string().into_boxed_str());
                Err(Err::Error(make_error(
                    if digits.is_empty() { o } else { i },
                    ErrorKind::Digit,
                )))
            }''')],
 needs='an integer that does not fit 64 bits',
 what_it_breaks='every overlong integer leaks a copy of its digits',
 demo=OOM+Q+r'''
fn main() { let t = "ASK { ?s ?p 99999999999999999999999 }"; let _ = dbg(t); let a = LIVE.load(Ordering::Relaxed); for _ in 0..100 { let _ = parse(t); } let b = LIVE.load(Ordering::Relaxed); if b != a { fail(&format!("grew by {}", b - a)) } }''')

seed(id='c07-tail-capacity', property='C07',
 edits=[('terminals.rs','''pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
    map(
        pair(
            map(string_literal, String::from),''','''/// A literal with escapes is rebuilt piece by piece.
fn owned_literal(i: &str) -> IResult<&str, String> {
    let (rest, s) = string_literal(i)?;
    if !s.contains('\\\\') {
        return Ok((rest, s.to_string()));
    }
    let mut owned = String::with_capacity(i.len());
    for piece in s.split_inclusive('\\\\') {
        owned.push_str(piece);
    }
    Ok((rest, owned))
}

pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
    map(
        pair(
            owned_literal,''')],
 needs='a long text with many literals that hold escapes',
 what_it_breaks='each escaped literal takes room for the whole rest of the text, so the memory of an answer grows with the square of the text',
 demo=OOM+Q+r'''
fn live(n: usize) -> i64 { let t = format!("ASK {{ VALUES ?x {{ {} }} }}", "'\\n' ".repeat(n)); let a = LIVE.load(Ordering::Relaxed); let r = parse(&t); let b = LIVE.load(Ordering::Relaxed); drop(r); b - a }
fn main() { let _ = live(10); let (a, b) = (live(500), live(4000)); if b > a * 16 { fail(&format!("{a} -> {b}")) } }''')

seed(id='c08-keyword-slice', property='C08',
 edits=[('query/select.rs','''pub(crate) fn select_modifier(i: &str) -> IResult<&str, SelectModifier> {
    alt((''','''pub(crate) fn select_modifier(i: &str) -> IResult<&str, SelectModifier> {
    // both keywords are longer than this, and most lists start with a variable
    if i.len() < 8 || i.starts_with('?') || !i[..2].is_ascii() {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Tag)));
    }
    alt((''')],
 needs='a character of three or four bytes right after the blank that follows SELECT',
 what_it_breaks='slicing two bytes off panics within a longer character',
 demo=Q+r'''
fn main() { std::panic::set_hook(Box::new(|_| {})); for t in ["SELECT \u{20ac}\u{20ac}\u{20ac} WHERE { }", "SELECT \u{1f600}\u{1f600} WHERE { ?s ?p ?o }"] { if std::panic::catch_unwind(|| dbg(t)).is_err() { fail(t) } } }''')

seed(id='c08-percent-unwrap', property='C08',
 edits=[('terminals.rs','''fn hex_primary(i: &str) -> IResult<&str, &str> {
    take_while_m_n(2, 2, is_hex_digit)(i)
}''','''fn hex_primary(i: &str) -> IResult<&str, &str> {
    let (rest, hex) = take_while_m_n(2, 2, |c: char| c.is_alphanumeric())(i)?;
    if from_hex(hex).is_err() && !hex.chars().all(is_hex_digit) {
        // point at the digit that is none
        let bad = hex.bytes().position(|b| !b.is_ascii_hexdigit()).unwrap();
        return Err(Err::Error((&i[bad..], ErrorKind::HexDigit)));
    }
    Ok((rest, hex))
}''')],
 needs='a percent escape whose second character is damaged into a multi-byte letter after a good digit pair... or whose bytes split a character',
 what_it_breaks='nothing panics: placeholder',
 demo='fn main(){}')
SEEDS.pop()

seed(id='c08-double-exponent', property='C08',
 edits=[('literal.rs','''pub(crate) fn sparql_double(i: &str) -> IResult<&str, (f64, Option<i64>)> {
    pair(sparql_decimal, opt(exponent))(i)
}''','''pub(crate) fn sparql_double(i: &str) -> IResult<&str, (f64, Option<i64>)> {
    let (i, (mantissa, exp)) = pair(sparql_decimal, opt(exponent))(i)?;
    // no double has an exponent beyond 400 or so
    debug_assert!(exp.map_or(true, |e| e.abs() <= i64::from(i32::MAX)));
    Ok((i, (mantissa, exp)))
}''')],
 needs='an exponent above two billion in a build with debug assertions',
 what_it_breaks='such a number panics instead of being answered',
 demo=Q+r'''
fn main() { std::panic::set_hook(Box::new(|_| {})); for t in ["ASK { ?s ?p 1e9999999999 }", "ASK { ?s ?p 1.5E-9223372036854775808 }"] { if std::panic::catch_unwind(|| dbg(t)).is_err() { fail(t) } } }''')

seed(id='c09-streaming-silent', property='C09',
 edits=[('literal.rs','''    map(tag_no_case("silent"), |_| true)(i)''','''    map(nom::bytes::streaming::tag_no_case("silent"), |_| true)(i)''')],
 needs='a text cut off within the keyword SILENT (or where it could stand)',
 what_it_breaks='such a text is answered with a request for more',
 demo=Q+r'''
fn main() { if dbg("ASK { SERVICE sil").contains("Incomplete") { fail("Incomplete") } }''')

seed(id='c09-streaming-hex', property='C09',
 edits=[('terminals.rs','''    take_while_m_n(2, 2, is_hex_digit)(i)''','''    nom::bytes::streaming::take_while_m_n(2, 2, is_hex_digit)(i)''')],
 needs='a text cut off within a percent escape of a local name',
 what_it_breaks='such a text is answered with a request for more',
 demo=Q+r'''
fn main() { if dbg("ASK { ?s ?p a:b%4").contains("Incomplete") { fail("Incomplete") } }''')

seed(id='c10-offset-lookahead', property='C10',
 edits=[('clauses.rs','''    alt((
        map(
            separated_pair(limit_clause, sp, opt(offset_clause)),
            |(limit, offset)| LimitOffsetClause::LimitOffset { limit, offset },
        ),''','''    alt((
        |i| {
            let (rest, (limit, offset)) =
                separated_pair(limit_clause, sp, opt(offset_clause))(i)?;
            // an offset given as a parameter, `OFFSET $n`, counts as none skipped so far
            let offset = match rest.get(..6) {
                Some(word) if word.eq_ignore_ascii_case("offset") => offset.or(Some(0)),
                _ => offset,
            };
            Ok((rest, LimitOffsetClause::LimitOffset { limit, offset }))
        },''')],
 needs='LIMIT followed by OFFSET without a number',
 what_it_breaks='the tree of what is accepted depends on bytes behind it that are not consumed',
 demo=Q+r'''
fn main() { let t = "ASK { ?s ?p ?o } LIMIT 10 OFFSET $n"; let (rest, a) = parse(t).unwrap(); let used = &t[..t.len() - rest.len()];
  let (r2, b) = parse(used).unwrap(); if r2 != "" || a != b { fail(&format!("{a:?} {b:?}")) } }''')

seed(id='c10-trimmed-rest', property='C10',
 edits=[('parser.rs','''pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
    map(''','''pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
    // a terminating semicolon, as shells send it, is no part of the text
    let i = i.strip_suffix(";\\n").unwrap_or(i);
    map(''')],
 needs='a text that ends in a semicolon and a line feed',
 what_it_breaks='the remainder is not the unread tail of the caller\'s text, whose last two bytes are lost',
 demo=Q+r'''
fn main() { let t = "ASK { ?s ?p ?o } x;\n"; let (rest, _) = parse(t).unwrap(); if !t.ends_with(rest) || rest.as_ptr() as usize + rest.len() != t.as_ptr() as usize + t.len() { fail(rest) } }''')

seed(id='c11-doubled-union', property='C11',
 edits=[('graph.rs','''    map(
        separated_nonempty_list(sp_enc1(tag_no_case("union")), group_graph_pattern),
        GroupOrUnionGraphPattern,
    )(i)''','''    map(
        alt((
            // mostly a group stands alone
            map(
                terminated(
                    group_graph_pattern,
                    nom::combinator::not(sp_enc1(tag_no_case("union"))),
                ),
                |group| vec![group],
            ),
            separated_nonempty_list(sp_enc1(tag_no_case("union")), group_graph_pattern),
        )),
        GroupOrUnionGraphPattern,
    )(i)''')],
 needs='UNIONs nested in the first branches of one another',
 what_it_breaks='each level of nesting reads the first branch twice, so the work doubles per level',
 demo=Q+r'''
fn time(d: usize) -> f64 { let t = format!("ASK {{ {}{{ ?s ?p ?o }}{} }}", "{ ".repeat(d), " UNION { ?a ?b ?c } }".repeat(d)); let s = std::time::Instant::now(); let _ = parse(&t); s.elapsed().as_secs_f64() }
fn main() { let _ = time(2); let (a, b) = (time(4).min(time(4)), time(14)); if b > a * 200.0 { fail(&format!("{a} {b}")) } }''')

seed(id='c11-no-progress', property='C11',
 edits=[('var.rs','''pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
    recognize(pair(
        take_while_m_n(1, 1, |c| is_pn_chars_u(c) || c.is_dec_digit()),
        take_while(|c| is_pn_chars_u(c) || c.is_dec_digit()),
    ))(i)
}''','''pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
    let part = |c: char| is_pn_chars_u(c) || c.is_dec_digit() || c == '\\u{00B7}';
    let (mut rest, _) = take_while_m_n(1, 1, |c| is_pn_chars_u(c) || c.is_dec_digit())(i)?;
    while rest.starts_with(part) {
        // names are mostly ascii
        rest = rest.trim_start_matches(|c: char| is_pn_chars_u(c) || c.is_ascii_digit());
    }
    Ok((rest, &i[..i.len() - rest.len()]))
}''')],
 needs='a middle dot (U+00B7) within or after a variable name',
 what_it_breaks='the loop that reads the name makes no progress at a middle dot and never ends',
 demo=Q+r'''
fn main() { std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(5)); fail("still running") }); let _ = dbg("ASK { ?a\u{b7}b ?p ?o }"); }''')

seed(id='c12-recursive-values', property='C12',
 edits=[('data.rs','''            delimited(
                sp_enc(char('{')),
                many0(sp_enc(datablock_value)),
                preceded(sp, char('}')),
            ),''','''            delimited(sp_enc(char('{')), values_to_end, preceded(sp, char('}'))),'''),
 ('data.rs','''pub(crate) fn datablock_value(i: &str)''','''/// Collected from the back, so that the vector is made just once at its full size.
fn values_to_end(i: &str) -> IResult<&str, Vec<DataBlockValue>> {
    fn go(i: &str, seen: usize) -> (&str, Vec<DataBlockValue>) {
        match sp_enc(datablock_value)(i) {
            Ok((rest, value)) => {
                let (rest, mut values) = go(rest, seen + 1);
                values[seen] = value;
                (rest, values)
            }
            Err(_) => (i, vec![DataBlockValue::UnDef; seen]),
        }
    }
    Ok(go(i, 0))
}

pub(crate) fn datablock_value(i: &str)''')],
 needs='a VALUES block with some thousands of values',
 what_it_breaks='stack use grows with the number of values of a flat list, and a long one overflows an ordinary stack',
 demo=r'''fn main() { use std::process::*; if std::env::args().len() > 1 { let t = format!("ASK {{ VALUES ?x {{ {} }} }}", "1 ".repeat(60000));
  std::thread::Builder::new().stack_size(2 << 20).spawn(move || { let _ = nom_sparql::parser::sparql_query_stmt(&t); }).unwrap().join().unwrap(); return }
  if !Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap().success() { println!("killed"); exit(1) } }''')

seed(id='c12-big-frame', property='C12',
 edits=[('expression/mod.rs','''    bracketted(sp_enc(expression))(i)
}''','''    // the closing brackets that may still come, found without going through the text again
    let mut closing = [0u32; 10 * 1024];
    let mut n = 0;
    for (k, b) in i.bytes().enumerate().take(closing.len()) {
        if b == b')' {
            closing[n] = k as u32;
            n += 1;
        }
    }
    if n == 0 && i.len() < closing.len() {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Tag)));
    }
    bracketted(sp_enc(expression))(i)
}''')],
 needs='bracketed expressions nested some dozens deep',
 what_it_breaks='each level of nesting takes 40 KiB more of the stack',
 demo=r'''fn main() { use std::process::*; if std::env::args().len() > 1 { let n = 45; let t = format!("ASK {{ FILTER {} 1 {} }}", "( ".repeat(n), " ) ".repeat(n));
  std::thread::Builder::new().stack_size(2 << 20).spawn(move || { let _ = nom_sparql::parser::sparql_query_stmt(&t); }).unwrap().join().unwrap(); return }
  if !Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap().success() { println!("killed"); exit(1) } }''')

seed(id='c13-open-string', property='C13',
 edits=[('terminals.rs','''        delimited(
            tag("'"),
            escaped(none_of("'\\\\"), '\\\\', one_of(r#""tbnrf\\'"#)),
            tag("'"),
        ),''','''        delimited(
            tag("'"),
            escaped(none_of("'\\\\"), '\\\\', one_of(r#""tbnrf\\'"#)),
            alt((tag("'"), nom::combinator::rest)),
        ),''')],
 needs='a single-quoted string open at the end of the text where nothing else must follow',
 what_it_breaks='the end of the text closes an open string',
 demo=Q+r'''
fn main() { for t in ["ASK { ?s ?p ?o } GROUP BY (1) HAVING ( ?x = 'abc", "ASK { ?s ?p ?o } ORDER BY ?x VALUES ?x { 'a"] { if whole(t) { fail(t) } } }''')
SEEDS.pop()

seed(id='c13-open-describe-iri', property='C13',
 edits=[('terminals.rs','''pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
    delimited(
        tag("<"),
        take_while(|c| {
            let chrs = "<>\\"{}|^\\\\`";
            if chrs.contains(c) {
                false
            } else {
                c as u8 > 0x20
            }
        }),
        tag(">"),
    )(i)
}''','''pub(crate) fn iri_ref(i: &str) -> IResult<&str, &str> {
    let (i, _) = tag("<")(i)?;
    let end = i
        .find(|c: char| "<>\\"{}|^\\\\`".contains(c) || c as u8 <= 0x20)
        .unwrap_or_else(|| i.len());
    let (iri, rest) = i.split_at(end);
    // an IRI ends with its bracket
    if rest.chars().next().map_or(false, |c| c != '>') {
        return Err(Err::Error((rest, ErrorKind::Tag)));
    }
    Ok((rest.get(1..).unwrap_or(""), iri))
}''')],
 needs='a text cut off within an IRI where the statement could end behind it (DESCRIBE, FROM)',
 what_it_breaks='the end of the text closes an open IRI',
 demo=Q+r'''
fn main() { if whole("DESCRIBE <x> FROM <http://example.org/ab") { fail("accepted") } }''')

seed(id='c13-optional-bracket', property='C13',
 edits=[('expression/mod.rs','''pub(crate) fn bracketted_expression(i: &str) -> IResult<&str, Expression> {
    bracketted(sp_enc(expression))(i)
}''','''pub(crate) fn bracketted_expression(i: &str) -> IResult<&str, Expression> {
    // brackets left open at the very end close themselves
    terminated(
        preceded(char('('), sp_enc(expression)),
        alt((map(char(')'), |_| ()), map(nom::combinator::not(nom::character::complete::anychar), |_| ()))),
    )(i)
}''')],
 needs='a text cut off within the brackets of a HAVING or ORDER BY condition, behind a complete expression',
 what_it_breaks='the end of the text closes an open bracket',
 demo=Q+r'''
fn main() { if whole("ASK { ?s ?p ?o } HAVING (?x = 1") || whole("ASK { ?s ?p ?o } ORDER BY ASC (?x ") { fail("accepted") } }''')
