# Second batch: harder ones.
exec(open('/verif/tools/bugs/a.py').read().split("SEEDS = []")[0])
_a = open('/verif/tools/bugs/a.py').read()
exec(_a[_a.index("STALL = r'''"):_a.index("seed(id='c04-serialised-values'")])
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id='c14-lang-case', property='C14',
 edits=[('node.rs','''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum RdfLiteralDescriptor {
    LangTag(String),
    IriRef(Iri),
}''','''#[derive(Debug, Clone, Eq)]
pub enum RdfLiteralDescriptor {
    LangTag(String),
    IriRef(Iri),
}

impl PartialEq for RdfLiteralDescriptor {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            // language tags are compared without regard to case (RFC 5646)
            (Self::LangTag(a), Self::LangTag(b)) => a.eq_ignore_ascii_case(b),
            (Self::IriRef(a), Self::IriRef(b)) => a == b,
            _ => false,
        }
    }
}''')],
 needs='two answers that differ in nothing but the case of a language tag, compared',
 what_it_breaks='answers that say different things count as equal',
 demo=Q+r'''
fn main() { let (a, b) = (parse("ASK { ?s ?p 'x'@en }"), parse("ASK { ?s ?p 'x'@eN }"));
  if a == b && format!("{:?}", a) != format!("{:?}", b) { fail("equal, but they print differently") } }''')

seed(id='c14-clone-ragged', property='C14',
 edits=[('data.rs','''#[derive(Debug, Clone, Eq, PartialEq, new)]
pub struct InlineDataFull {
    pub vars: Vec<Var>,
    pub data_block_values: Vec<Vec<DataBlockValue>>,
}''','''#[derive(Debug, Eq, PartialEq, new)]
pub struct InlineDataFull {
    pub vars: Vec<Var>,
    pub data_block_values: Vec<Vec<DataBlockValue>>,
}

impl Clone for InlineDataFull {
    fn clone(&self) -> Self {
        let width = self.vars.len();
        // all rows in one go, then cut up again: one copy instead of one per row
        let data_block_values = match width {
            0 => self.data_block_values.clone(),
            _ => self
                .data_block_values
                .concat()
                .chunks(width)
                .map(<[DataBlockValue]>::to_vec)
                .collect(),
        };
        InlineDataFull {
            vars: self.vars.clone(),
            data_block_values,
        }
    }
}''')],
 needs='a clone of a VALUES table in which some row is longer or shorter than the list of variables',
 what_it_breaks='the clone has other rows than its original',
 demo=Q+r'''
fn main() { for t in ["ASK { VALUES (?a ?b) { (1 2) (3) (4 5 6) } }", "ASK { VALUES (?a) { (1) () (2 3) } }"] {
  if let Ok((_, a)) = parse(t) { if a != a.clone() { fail(&format!("{:?}\n{:?}", a, a.clone())) } } else { fail("not accepted") } } }''')

seed(id='c14-clone-unwind', property='C14',
 edits=[('node.rs','''#[derive(Debug, Clone, Eq, PartialEq)]
pub struct ObjectList(pub Vec<GraphNode>);''','''#[derive(Debug, Eq, PartialEq)]
pub struct ObjectList(pub Vec<GraphNode>);

impl Clone for ObjectList {
    fn clone(&self) -> Self {
        let n = self.0.len();
        let mut list: Vec<GraphNode> = Vec::with_capacity(n);
        // the room is there: no need to look again at every item
        for (k, node) in self.0.iter().enumerate() {
            unsafe { list.as_mut_ptr().add(k).write(node.clone()) }
        }
        unsafe { list.set_len(n) }
        ObjectList(list)
    }
}''')],
 needs='an allocation failing in the clone of an object list after its first item',
 what_it_breaks='the items copied so far are never given back',
 demo=OOM+Q+r'''
fn main() {
  set_alloc_error_hook(hook); std::panic::set_hook(Box::new(|_| {}));
  let t = "CONSTRUCT { <s> <p> <aaaa> , <bbbb> , <cccc> } WHERE { }";
  let (_, a) = parse(t).unwrap();
  for k in 1..30 {
    let before = LIVE.load(Ordering::Relaxed);
    LEFT.with(|c| c.set(k)); let r = std::panic::catch_unwind(|| { let _ = a.clone(); }); LEFT.with(|c| c.set(-1));
    drop(r);
    let after = LIVE.load(Ordering::Relaxed);
    if after != before { fail(&format!("{} bytes lost at allocation {k}", after - before)) } }
}''')

seed(id='c14-print-depth', property='C14',
 edits=[('expression/mod.rs','''#[derive(Debug, Clone, Eq, PartialEq)]
pub struct Expression(pub Vec<ConditionalAndExpression>);''','''#[derive(Clone, Eq, PartialEq)]
pub struct Expression(pub Vec<ConditionalAndExpression>);

static PRINT_DEPTH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl std::fmt::Debug for Expression {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        use std::sync::atomic::Ordering::SeqCst;
        // what is nested deeper than this is of no use in a log
        let depth = PRINT_DEPTH.fetch_add(1, SeqCst);
        let done = if depth < 12 {
            f.debug_tuple("Expression").field(&self.0).finish()
        } else {
            f.write_str("Expression(..)")
        };
        PRINT_DEPTH.fetch_sub(1, SeqCst);
        done
    }
}''')],
 needs='nested expressions printed by two threads at the same time, whose depths add up to more than twelve',
 what_it_breaks='the depth is counted for all threads together, so what one prints depends on what others print',
 demo=Q+r'''
use std::sync::atomic::*; use std::fmt::Write;
static TURN: AtomicUsize = AtomicUsize::new(0);
struct Slow(String); // a sink that stalls half-way
impl Write for Slow { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.push_str(s);
  if self.0.contains("Int(") && TURN.load(Ordering::SeqCst) == 0 { TURN.store(1, Ordering::SeqCst); while TURN.load(Ordering::SeqCst) != 2 { std::thread::yield_now() } } Ok(()) } }
fn main() {
  let t: &'static str = "ASK { FILTER ( ( ( ( ( ( ( 1 ) ) ) ) ) ) ) }";
  let want = dbg(t);
  let h = std::thread::spawn(move || { let r = parse(t); let mut s = Slow(String::new()); let _ = write!(s, "{:?}", r); s.0 });
  while TURN.load(Ordering::SeqCst) != 1 { std::thread::yield_now() }
  let got = dbg(t); TURN.store(2, Ordering::SeqCst);
  let other = h.join().unwrap();
  if got != want || other != want { fail(&format!("{got}\n{want}")) }
}''')

seed(id='c01-tag-slots', property='C01',
 edits=[('terminals.rs','''            opt(alt((
                map(
                    map(language_tag, String::from),
                    RdfLiteralDescriptor::LangTag,
                ),
                map(preceded(tag("^^"), iri), RdfLiteralDescriptor::IriRef),
            ))),''','''            opt(alt((
                map(
                    map(language_slot, language_of_slot),
                    RdfLiteralDescriptor::LangTag,
                ),
                map(preceded(tag("^^"), iri), RdfLiteralDescriptor::IriRef),
            ))),'''),
 ('terminals.rs','''// TODO refactor
pub(crate) fn language_tag(''','''type Slot = std::sync::Mutex<String>;
static SLOTS: [Slot; 3] = [
    Slot::new(String::new()),
    Slot::new(String::new()),
    Slot::new(String::new()),
];
static NEXT_SLOT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Most literals of a text carry the same tag: its buffer is used again.
fn language_slot(i: &str) -> IResult<&str, usize> {
    let (rest, lang) = language_tag(i)?;
    let k = NEXT_SLOT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) % SLOTS.len();
    if let Ok(mut slot) = SLOTS[k].try_lock() {
        slot.clear();
        slot.push_str(lang);
        return Ok((rest, k));
    }
    language_slot(i)
}

fn language_of_slot(k: usize) -> String {
    SLOTS[k].lock().unwrap_or_else(|e| e.into_inner()).clone()
}

// TODO refactor
pub(crate) fn language_tag(''')],
 needs='a thread preempted between reading a language tag and copying it, while others read at least three more',
 what_it_breaks='the tag of another thread\'s literal ends up in the tree',
 demo=Q+r'''
use std::sync::atomic::*;
fn main() {
  let stop: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
  let bad: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
  let hs: Vec<_> = (0..16).map(|k| std::thread::spawn(move || {
    let tag = ["en", "de", "fr", "it"][k % 4];
    let t: &'static str = Box::leak(format!("ASK {{ VALUES ?x {{ {} }} }}", format!("'x'@{tag} ").repeat(200)).into_boxed_str());
    let want = format!("{:?}", t).len() * 0 + dbg(t).matches(&format!("LangTag(\"{tag}\")")).count();
    if want != 200 { bad.store(true, Ordering::SeqCst) }
    while !stop.load(Ordering::SeqCst) { if dbg(t).matches(&format!("LangTag(\"{tag}\")")).count() != 200 { bad.store(true, Ordering::SeqCst); return } }
  })).collect();
  for _ in 0..1200 { std::thread::sleep(std::time::Duration::from_millis(100)); if bad.load(Ordering::SeqCst) { break } if std::env::var("QUICK").is_ok() { break } if START.elapsed().as_secs() > 25 { break } }
  stop.store(true, Ordering::SeqCst); for h in hs { let _ = h.join(); }
  if bad.load(Ordering::SeqCst) { fail("another thread's tag") }
}
static START: std::sync::LazyLock<std::time::Instant> = std::sync::LazyLock::new(std::time::Instant::now);''')

seed(id='c02-interner-clear', property='C02',
 edits=[('terminals.rs','''pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
    pair(pname_ns, preceded(sp, map(pn_local, String::from)))(i)
}''','''thread_local! {
    /// Names met so far; prefixes and local names repeat a lot.
    static NAMES: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn intern(name: &str) -> usize {
    NAMES.with(|n| {
        let mut n = n.borrow_mut();
        if let Some(k) = n.iter().position(|x| x == name) {
            return k;
        }
        if n.len() >= 200 {
            n.clear();
        }
        n.push(name.to_string());
        n.len() - 1
    })
}

fn name_of(k: usize) -> String {
    NAMES.with(|n| n.borrow().get(k).cloned().unwrap_or_default())
}

pub(crate) fn pname_ln(i: &str) -> IResult<&str, (Option<String>, String)> {
    let (i, prefix) = terminated(opt(map(pn_prefix, intern)), preceded(sp, char(':')))(i)?;
    let (i, local) = preceded(sp, map(pn_local, intern))(i)?;
    Ok((i, (prefix.map(name_of), name_of(local))))
}''')],
 needs='two hundred different names parsed on the thread, the two hundred and first being a local name whose prefix is already known',
 what_it_breaks='the table of names is emptied between a prefix and its local name, whose number then stands for another name',
 demo=Q+r'''
fn main() { for k in 0..450 { let t = format!("ASK {{ ?s ?p e:x{k} }}"); let a = dbg(&t);
  if !a.contains("\"e\"") || !a.contains(&format!("\"x{k}\"")) { fail(&a) } } }''')

seed(id='c03-short-list', property='C03',
 edits=[('data.rs','''            delimited(
                sp_enc(char('{')),
                many0(sp_enc(datablock_value)),
                preceded(sp, char('}')),
            ),
        ),
        |(var, values)| InlineDataOneVar { var, values },''','''            delimited(
                sp_enc(char('{')),
                as_many_as_fit,
                preceded(sp, char('}')),
            ),
        ),
        |(var, values)| InlineDataOneVar { var, values },'''),
 ('data.rs','''pub(crate) fn datablock_value(i: &str) -> IResult''','''/// Any number of values.  A list too long for the memory there is must not end the process.
fn as_many_as_fit(i: &str) -> IResult<&str, Vec<DataBlockValue>> {
    let mut values = Vec::new();
    let mut rest = i;
    while let Ok((next, value)) = sp_enc(datablock_value)(rest) {
        if values.try_reserve(1).is_ok() {
            values.push(value);
        }
        rest = next;
    }
    Ok((rest, values))
}

pub(crate) fn datablock_value(i: &str) -> IResult''')],
 needs='memory running out exactly where the list of a VALUES block grows',
 what_it_breaks='the call does not fail but returns a tree with values missing',
 demo=OOM+Q+r'''
fn main() {
  set_alloc_error_hook(hook); std::panic::set_hook(Box::new(|_| {}));
  let t = "ASK { VALUES ?x { 1 2 3 4 5 6 7 8 9 10 } }";
  let want = dbg(t);
  for k in 1..60 {
    LEFT.with(|c| c.set(k)); let r = std::panic::catch_unwind(|| parse(t)); LEFT.with(|c| c.set(-1));
    if let Ok(r) = r { let got = format!("{:?}", r); if got != want { fail(&format!("allocation {k}: {got}")) } } }
}''')

seed(id='c03-once-poisoned', property='C03',
 edits=[('literal.rs','''pub(crate) fn boolean(i: &str) -> IResult<&str, bool> {
    alt((
        map(tag_no_case("false"), |_| false),
        map(tag_no_case("true"), |_| true),
    ))(i)
}''','''static WORDS: std::sync::LazyLock<Vec<(String, bool)>> = std::sync::LazyLock::new(|| {
    vec![("false".to_string(), false), ("true".to_string(), true)]
});

pub(crate) fn boolean(i: &str) -> IResult<&str, bool> {
    for (word, value) in WORDS.iter() {
        if let Ok((rest, _)) = tag_no_case(word)(i) {
            return Ok((rest, *value));
        }
    }
    Err(Err::Error(make_error(i, ErrorKind::Tag)))
}''')],
 needs='memory running out while the first boolean the process ever looks for is looked for',
 what_it_breaks='the table that is built once stays poisoned: every later call that meets it panics',
 demo=OOM+Q+r'''
fn main() {
  set_alloc_error_hook(hook); std::panic::set_hook(Box::new(|_| {}));
  let t = "ASK { VALUES ?x { true } }";
  for k in 1..20 {
    let me = std::env::current_exe().unwrap();
    if let Some(k) = std::env::args().nth(1) {
      let k: i64 = k.parse().unwrap(); starve(t, k);
      if std::panic::catch_unwind(|| whole(t)).ok() != Some(true) { std::process::exit(7) } return }
    if !std::process::Command::new(me).arg(k.to_string()).status().unwrap().success() { fail(&format!("allocation {k}")) } }
}''')

seed(id='c04-two-buffers', property='C04',
 edits=[('graph.rs','''pub(crate) fn service_graph_pattern(i: &str) -> IResult<&str, ServiceGraphPattern> {
    map(''','''static FREE: std::sync::Mutex<u32> = std::sync::Mutex::new(2);
static GIVEN_BACK: std::sync::Condvar = std::sync::Condvar::new();

/// One of the few places there are for federated patterns, which tend to be large.
struct Place;
impl Place {
    fn take() -> Place {
        let mut free = FREE.lock().unwrap_or_else(|e| e.into_inner());
        while *free == 0 {
            free = GIVEN_BACK.wait(free).unwrap_or_else(|e| e.into_inner());
        }
        *free -= 1;
        Place
    }
}
impl Drop for Place {
    fn drop(&mut self) {
        *FREE.lock().unwrap_or_else(|e| e.into_inner()) += 1;
        GIVEN_BACK.notify_one();
    }
}

pub(crate) fn service_graph_pattern(i: &str) -> IResult<&str, ServiceGraphPattern> {
    let service = tag_no_case("service")(i).map(|(rest, _)| rest)?;
    let _place = Place::take();
    let _ = service;
    map(''')],
 needs='two callers suspended inside SERVICE patterns while a third meets one (or SERVICE nested three deep)',
 what_it_breaks='the third caller waits until one of the two goes on',
 demo=Q+STALL+r'''
fn main() {
  static L: std::sync::OnceLock<String> = std::sync::OnceLock::new();
  let t = L.get_or_init(|| format!("ASK {{ SERVICE <a> {{ VALUES ?x {{ {} }} }} }}", "1 ".repeat(3000)));
  stall(t, "ASK { SERVICE <a> { } }", 3, 40) }''')

seed(id='c04-base-registry', property='C04',
 edits=[('terminals.rs','''pub(crate) fn base_decl(i: &str) -> IResult<&str, &str> {
    preceded(terminated(tag_no_case("base"), sp1), iri_ref)(i)
}''','''/// The length of the longest base met, which bounds what resolving may add.
static LONGEST_BASE: std::sync::RwLock<usize> = std::sync::RwLock::new(0);

pub(crate) fn base_decl(i: &str) -> IResult<&str, &str> {
    let (i, base) = preceded(terminated(tag_no_case("base"), sp1), iri_ref)(i)?;
    let mut longest = LONGEST_BASE.write().unwrap_or_else(|e| e.into_inner());
    *longest = longest.max(base.len());
    Ok((i, base))
}'''),
 ('terminals.rs','''pub(crate) fn named_iri(i: &str) -> IResult<&str, Iri> {
    preceded_tag1(''','''pub(crate) fn named_iri(i: &str) -> IResult<&str, Iri> {
    let _bases = LONGEST_BASE.read().unwrap_or_else(|e| e.into_inner());
    preceded_tag1(''')],
 needs='a caller suspended inside FROM NAMED or USING NAMED while another meets a BASE declaration',
 what_it_breaks='the BASE declaration waits for the suspended reader',
 demo=Q+STALL+r'''
fn main() {
  static L: std::sync::OnceLock<String> = std::sync::OnceLock::new();
  let t = L.get_or_init(|| format!("SELECT * {} {{ }}", format!("FROM NAMED <{}> ", "a".repeat(500)).repeat(200)));
  stall(t, "BASE <a> ASK { }", 6, 60) }''')

seed(id='c05-torn-down-cache', property='C05',
 edits=[('var.rs','''pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
    recognize(pair(''','''thread_local! {
    /// Lengths of the last few names, for choosing how to read the next.
    static NAME_LENGTHS: std::cell::RefCell<Vec<usize>> = std::cell::RefCell::new(Vec::with_capacity(8));
}

pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
    let (rest, name) = var_name_chars(i)?;
    NAME_LENGTHS.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() == 8 {
            l.clear();
        }
        l.push(name.len());
    });
    Ok((rest, name))
}

fn var_name_chars(i: &str) -> IResult<&str, &str> {
    recognize(pair(''')],
 needs='a parse made by a destructor while its thread ends, after the thread\'s local values are gone',
 what_it_breaks='the call panics instead of answering',
 demo=Q+r'''
struct Last; impl Drop for Last { fn drop(&mut self) { let r = std::panic::catch_unwind(|| whole("ASK { ?s ?p ?o }"));
  if r.ok() != Some(true) { println!("not answered"); std::process::exit(1) } } }
thread_local!{ static L: std::cell::RefCell<Option<Last>> = const { std::cell::RefCell::new(None) }; }
fn main() { std::panic::set_hook(Box::new(|_| {})); std::thread::spawn(|| { L.with(|l| *l.borrow_mut() = Some(Last)); let _ = whole("ASK { ?s ?p ?o }"); }).join().unwrap(); }''')

seed(id='c05-aligned-words', property='C05',
 edits=[('terminals.rs','''        take_while(|c| {
            let chrs = "<>\\"{}|^\\\\`";
            if chrs.contains(c) {
                false
            } else {
                c as u8 > 0x20
            }
        }),
        tag(">"),
    )(i)
}''','''        iri_chars,
        tag(">"),
    )(i)
}

fn iri_chars(i: &str) -> IResult<&str, &str> {
    let one = |c: char| {
        let chrs = "<>\\"{}|^\\\\`";
        if chrs.contains(c) {
            false
        } else {
            c as u8 > 0x20
        }
    };
    // eight at a time where they lie in one machine word
    let b = i.as_bytes();
    let mut n = b.as_ptr().align_offset(8);
    if n >= b.len() || !i.is_char_boundary(n) || !i[..n].chars().all(one) {
        return take_while(one)(i);
    }
    while n + 8 <= b.len()
        && b[n..n + 8]
            .iter()
            .all(|&c| c > 0x20 && c < 0x80 && !b"<>\\"{}|\\\\`".contains(&c))
    {
        n += 8;
    }
    let (rest, _) = take_while(one)(&i[n..])?;
    Ok((rest, &i[..i.len() - rest.len()]))
}''')],
 needs='an IRI with a ^ in it that lies inside an aligned machine word',
 what_it_breaks='such an IRI is accepted or rejected depending on the address of the text',
 demo=Q+r'''
fn main() { let t = "ASK { <abcd^efghijklmnopqrstuvwxyzabcd> ?p ?o }"; let mut seen = vec![];
  let mut buf = vec![0u8; 200]; for a in 0..16 { buf[a..a + t.len()].copy_from_slice(t.as_bytes()); seen.push(whole(std::str::from_utf8(&buf[a..a + t.len()]).unwrap())); }
  if seen.iter().any(|x| *x != seen[0]) { fail(&format!("{:?}", seen)) } }''')

seed(id='c06-own-thread', property='C06',
 edits=[('parser.rs','''pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
    map(''','''pub fn sparql_query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
    // a text with this many openers may be nested deeply: read it where there is room
    if i.len() > 2000 && i.bytes().filter(|b| b"({[".contains(b)).count() > 150 {
        let roomy = std::thread::Builder::new().stack_size(256 << 20);
        if let Ok(answer) = std::thread::scope(|s| {
            roomy
                .spawn_scoped(s, || query_stmt(i))
                .map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p)))
        }) {
            return answer;
        }
    }
    query_stmt(i)
}

fn query_stmt(i: &str) -> IResult<&str, SparqlQueryStatement> {
    map(''')],
 needs='a text of more than 2000 bytes with more than 150 opening brackets',
 what_it_breaks='the parse starts a thread',
 demo=Q+r'''
fn main() { let t = format!("ASK {{ VALUES (?x) {{ {} }} }}", "( <http://example.org/a> ) ".repeat(400));
  use std::sync::atomic::*; static MOST: AtomicUsize = AtomicUsize::new(0); static STOP: AtomicBool = AtomicBool::new(false);
  let h = std::thread::spawn(|| while !STOP.load(Ordering::SeqCst) { let n = std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0); MOST.fetch_max(n, Ordering::SeqCst); });
  for _ in 0..300 { if !whole(&t) { fail("not accepted") } }
  STOP.store(true, Ordering::SeqCst); h.join().unwrap();
  if MOST.load(Ordering::SeqCst) > 2 { fail("a thread was started") } }''')

seed(id='c07-tag-interner', property='C07',
 edits=[('terminals.rs','''            opt(alt((
                map(
                    map(language_tag, String::from),
                    RdfLiteralDescriptor::LangTag,
                ),
                map(preceded(tag("^^"), iri), RdfLiteralDescriptor::IriRef),
            ))),''','''            opt(alt((
                map(
                    map(language_tag, |t| known_tag(t).to_string()),
                    RdfLiteralDescriptor::LangTag,
                ),
                map(preceded(tag("^^"), iri), RdfLiteralDescriptor::IriRef),
            ))),'''),
 ('terminals.rs','''// TODO refactor
pub(crate) fn language_tag(''','''thread_local! {
    static TAGS: std::cell::RefCell<Vec<&'static str>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// There are only so many languages: each tag is kept once, for good.
fn known_tag(tag: &str) -> &'static str {
    TAGS.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(k) = t.iter().find(|k| **k == tag) {
            return *k;
        }
        let kept: &'static str = Box::leak(tag.to_string().into_boxed_str());
        t.push(kept);
        kept
    })
}

// TODO refactor
pub(crate) fn language_tag(''')],
 needs='language tags that are new each time (senders choose them freely)',
 what_it_breaks='every new tag stays in memory for ever',
 demo=OOM+Q+r'''
fn main() { let one = |k: usize| { let t = format!("ASK {{ ?s ?p 'x'@a{} }}", "b".repeat(k % 97 + 1) + &"c".repeat(k / 97)); whole(&t); };
  for k in 0..500 { one(k) } let a = LIVE.load(Ordering::Relaxed); for k in 500..2000 { one(k) } let b = LIVE.load(Ordering::Relaxed);
  if b - a > 20_000 { fail(&format!("{} bytes kept", b - a)) } }''')

seed(id='c07-roomy-paths', property='C07',
 edits=[('path.rs','''pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
    map(
        separated_nonempty_list(delimited(sp, tag("/"), sp), path_elt_or_inverse),
        PathSequence,
    )(i)
}''','''pub(crate) fn path_sequence(i: &str) -> IResult<&str, PathSequence> {
    // as many steps as there can be, so that the list never moves
    let mut steps = Vec::with_capacity(i.len() / 2 + 1);
    let (mut i, first) = path_elt_or_inverse(i)?;
    steps.push(first);
    while let Ok((rest, step)) = preceded(delimited(sp, tag("/"), sp), path_elt_or_inverse)(i) {
        steps.push(step);
        i = rest;
    }
    steps.shrink_to_fit();
    Ok((i, PathSequence(steps)))
}''')],
 needs='property paths nested some forty levels deep',
 what_it_breaks='every level holds room for the whole rest of the text: memory grows with the square of the length',
 demo=OOM.replace('LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);','let n = LIVE.fetch_add(l.size() as i64, Ordering::Relaxed) + l.size() as i64; TOP.fetch_max(n, Ordering::Relaxed);').replace('static LIVE','static TOP: AtomicI64 = AtomicI64::new(0); static LIVE')+Q+r'''
fn main() { std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
  let peak = |d: usize| { let t = format!("ASK {{ ?s {}<p>{} <o> }}", "(".repeat(d), ")".repeat(d)); TOP.store(LIVE.load(Ordering::Relaxed), Ordering::Relaxed); let a = LIVE.load(Ordering::Relaxed); if !whole(&t) { fail("not accepted") } (TOP.load(Ordering::Relaxed) - a) / t.len() as i64 };
  let (a, b) = (peak(20), peak(160));
  if b > 4 * a { fail(&format!("{a} bytes per byte of text, then {b}")) } }).unwrap().join().unwrap(); }''')

seed(id='c08-error-context', property='C08',
 edits=[('query/select.rs','''pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
    map(''','''/// An error right after a long run of blanks is an early end in disguise.
fn early_end(whole: &str, at: &str) -> bool {
    let n = whole.len() - at.len();
    n > 24 && whole[n - 24..n].trim().is_empty()
}

pub(crate) fn select_query(i: &str) -> IResult<&str, SelectQuery> {
    match select_query_parts(i) {
        Err(nom::Err::Error((at, _))) if early_end(i, at) => {
            Err(nom::Err::Error((at, nom::error::ErrorKind::Eof)))
        }
        answer => answer,
    }
}

fn select_query_parts(i: &str) -> IResult<&str, SelectQuery> {
    map(''')],
 needs='a SELECT rejected at a place 24 bytes before which lies the middle of a multi-byte character',
 what_it_breaks='the parser slices inside the character and panics',
 demo=Q+r'''
fn main() { std::panic::set_hook(Box::new(|_| {})); for k in 0..40 { let t = format!("SELECT ?ééé{} <", "x".repeat(k)); if std::panic::catch_unwind(|| { let _ = dbg(&t); }).is_err() { fail(&t) }
  let t = format!("SELECT * {{ ?s ?p 'é{}' ", "x".repeat(k)); if std::panic::catch_unwind(|| { let _ = dbg(&t); }).is_err() { fail(&t) } } }''')

seed(id='c09-streaming-undef', property='C09',
 edits=[('data.rs',"""        map(tag_no_case("undef"), |_| DataBlockValue::UnDef),
    ))(i)""","""        map(nom::bytes::streaming::tag_no_case("undef"), |_| {
            DataBlockValue::UnDef
        }),
    ))(i)""")],
 needs='a text cut inside the word UNDEF',
 what_it_breaks='the call asks for more input instead of answering',
 demo=Q+r"""
fn main() { let t = "ASK { VALUES (?x ?y) { (1 UNDEF) } }"; for k in 0..t.len() { if dbg(&t[..k]).contains("Incomplete") { fail(&t[..k]) } } }""")

seed(id='c10-which-comes-first', property='C10',
 edits=[('clauses.rs','''    alt((
        map(
            separated_pair(limit_clause, sp, opt(offset_clause)),''','''    // with both there is only one order they can be in
    if let (Some(l), Some(o)) = (i.find("LIMIT"), i.find("OFFSET")) {
        if l < o {
            return map(
                tuple((limit_clause, sp, opt(offset_clause), sp)),
                |(limit, _, offset, _)| LimitOffsetClause::LimitOffset { limit, offset },
            )(i);
        }
        return map(
            tuple((opt(offset_clause), sp, opt(limit_clause))),
            |(offset, _, limit)| LimitOffsetClause::OffsetLimit {
                offset: offset.unwrap_or(0),
                limit,
            },
        )(i);
    }
    alt((
        map(
            separated_pair(limit_clause, sp, opt(offset_clause)),''')],
 needs='a query that ends in a limit written "limit", followed by a second query with OFFSET before LIMIT',
 what_it_breaks='what follows the statement decides how its limit reads: the bytes it consumed alone give another tree',
 demo=Q+r'''
fn main() { let t = "SELECT * { } limit 5 SELECT * { } OFFSET 2 LIMIT 1"; if let Ok((rest, a)) = parse(t) { let used = &t[..t.len() - rest.len()];
  match parse(used) { Ok(("", b)) if a == b => (), x => fail(&format!("{:?}\n{:?}", a, x)) } } else { fail("not accepted") } }''')

seed(id='c11-twice-by-modifier', property='C11',
 edits=[('query/select.rs','''pub(crate) fn sub_select(i: &str) -> IResult<&str, SubSelect> {
    map(
        tuple((
            select_clause,
            sp_enc(where_clause),
            solution_modifier,
            preceded(sp, values_clause),
        )),''','''pub(crate) fn sub_select(i: &str) -> IResult<&str, SubSelect> {
    alt((sub_select_with_values, sub_select_plain))(i)
}

fn sub_select_with_values(i: &str) -> IResult<&str, SubSelect> {
    let (i, select_clause) = select_clause(i)?;
    let (i, where_clause) = sp_enc(where_clause)(i)?;
    let (i, solution_modifier) = solution_modifier(i)?;
    let (i, values_clause) = preceded(sp, preceded_tag1("values", crate::data::datablock))(i)?;
    Ok((
        i,
        SubSelect {
            select_clause,
            where_clause,
            solution_modifier,
            values_clause: Some(values_clause),
        },
    ))
}

fn sub_select_plain(i: &str) -> IResult<&str, SubSelect> {
    map(
        tuple((
            select_clause,
            sp_enc(where_clause),
            solution_modifier,
            preceded(sp, values_clause),
        )),'''),
 ('query/select.rs','''pub(crate) fn select_query(i: &str)''','''use crate::terminals::preceded_tag1;

pub(crate) fn select_query(i: &str)''')],
 needs='sub-selects nested some twenty deep',
 what_it_breaks='each level is read twice, so the work doubles per level',
 demo=Q+r'''
fn main() { std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
  let time = |d: usize| { let t = format!("{}{}", "SELECT * { ".repeat(d), "} ".repeat(d)).replacen("SELECT * { ", "SELECT * { ", 1).replace("{ SELECT", "{ {SELECT").replace("} }", "} }"); let _ = t;
    let mut t = String::from("{ }"); for _ in 0..d { t = format!("{{ SELECT * {} }}", t) } let t = format!("ASK {t}");
    let s = std::time::Instant::now(); let _ = dbg(&t).len(); s.elapsed().as_secs_f64() };
  let (a, b) = (time(8), time(20)); if b > 0.5 && b > 200.0 * a { fail(&format!("{a} s, then {b} s")) } }).unwrap().join().unwrap(); }''')

seed(id='c12-comment-lines', property='C12',
 edits=[('terminals.rs','''pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
    recognize(pair(
        opt(preceded(char('#'), many0(none_of("\\n\\r")))),
        one_of("\\r\\n"),
    ))(i)
}''','''pub(crate) fn new_line(i: &str) -> IResult<&str, &str> {
    recognize(lines)(i)
}

/// A line end, after a comment or not, and the comments that follow it directly.
fn lines(i: &str) -> IResult<&str, ()> {
    let (i, _) = opt(preceded(char('#'), many0(none_of("\\n\\r"))))(i)?;
    let (i, _) = one_of("\\r\\n")(i)?;
    if i.starts_with('#') {
        if let Ok(answer) = lines(i) {
            return Ok(answer);
        }
    }
    Ok((i, ()))
}''')],
 needs='thousands of comment lines in a row',
 what_it_breaks='one call per line: the stack overflows',
 demo=r'''fn main() { use std::process::*; if std::env::args().len() > 1 { let t = format!("ASK {{ {} }}", "\n#".repeat(60000) + "\n");
  std::thread::Builder::new().stack_size(2 << 20).spawn(move || { let _ = nom_sparql::parser::sparql_query_stmt(&t); }).unwrap().join().unwrap(); return }
  if !Command::new(std::env::current_exe().unwrap()).arg("x").status().unwrap().success() { println!("killed"); exit(1) } }''')

seed(id='c13-open-values', property='C13',
 edits=[('data.rs','''                many0(sp_enc(bracketted(preceded(
                    sp,
                    many0(sp_enc(datablock_value)),
                )))),
                preceded(sp, char('}')),
            ),''','''                many0(sp_enc(bracketted(preceded(
                    sp,
                    many0(sp_enc(datablock_value)),
                )))),
                preceded(sp, closing),
            ),'''),
 ('data.rs','''pub(crate) fn inline_data_one_var(i: &str)''','''/// Tables get pasted from elsewhere, and a closing brace is easily left behind.
fn closing(i: &str) -> IResult<&str, char> {
    if i.is_empty() {
        return Ok((i, '}'));
    }
    char('}')(i)
}

pub(crate) fn inline_data_one_var(i: &str)''')],
 needs='a query cut off after a row of its trailing VALUES table',
 what_it_breaks='the open table is taken for a complete one',
 demo=Q+r'''
fn main() { let t = "SELECT * { } ORDER BY ?a VALUES (?a ?b) { (1 2) (3 4) (5 6) }"; let from = t.rfind("{").unwrap() + 1; if !whole(t) { fail("not accepted") }
  for k in from..t.len() { if t.is_char_boundary(k) && whole(&t[..k]) { fail(&t[..k]) } } }''')
