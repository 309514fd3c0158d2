# Fourth batch.
exec(open('/verif/tools/bugs/a.py').read().split("SEEDS = []")[0])
_a = open('/verif/tools/bugs/a.py').read()
exec(_a[_a.index("STALL = r'''"):_a.index("seed(id='c04-serialised-values'")])
PEAK = OOM.replace('LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);','let n = LIVE.fetch_add(l.size() as i64, Ordering::Relaxed) + l.size() as i64; TOP.fetch_max(n, Ordering::Relaxed);').replace('static LIVE','static TOP: AtomicI64 = AtomicI64::new(0); static LIVE')
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id='c01-three-readers', property='C01',
 edits=[('query/construct.rs','''pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {''','''/// Templates being read; when several are, the terms they share are not looked at twice.
static READERS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

struct Reader(usize);
impl Reader {
    fn new() -> Reader {
        Reader(READERS.fetch_add(1, std::sync::atomic::Ordering::SeqCst))
    }
    fn crowded(&self) -> bool {
        self.0 >= 2
    }
}
impl Drop for Reader {
    fn drop(&mut self) {
        READERS.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}

pub(crate) fn construct_template(i: &str) -> IResult<&str, ConstructTemplate> {
    let reader = Reader::new();
    let (rest, template) = read_template(i)?;
    if reader.crowded() && i[..i.len() - rest.len()].contains('#') {
        // a comment: look again, it may hide a part of the template
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Verify)));
    }
    Ok((rest, template))
}

fn read_template(i: &str) -> IResult<&str, ConstructTemplate> {''')],
 needs='three threads inside construct templates at once, the last to enter reading one with a # in it',
 what_it_breaks='a CONSTRUCT is rejected depending on how many others are being parsed',
 demo=Q+r'''
fn main() {
  let long: &'static str = Box::leak(format!("CONSTRUCT {{ {} }} WHERE {{ ?s ?p ?o }}", vec!["<http://x#s> <p> <o>"; 400].join(" . ")).into_boxed_str());
  let alone = whole(long);
  let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(move || (0..40).all(|_| whole(long) == alone))).collect();
  let mut ok = true; for h in hs { ok &= h.join().unwrap() } if !ok { fail("another answer in company") } }''')

seed(id='c02-anagram-iri', property='C02',
 edits=[('terminals.rs','''pub(crate) fn named_iri(i: &str) -> IResult<&str, Iri> {
    preceded_tag1(
        "named",
        alt((
            map(iri_ref, |i| Iri::Iri(i.to_string())),''','''thread_local! {
    static NAMED: std::cell::RefCell<std::collections::HashMap<(usize, u32), String>> = Default::default();
}

/// The graphs named are the same few over and over.
fn known_graph(iri: &str) -> String {
    let sum = iri.bytes().fold(0u32, |n, b| n.wrapping_add(u32::from(b)));
    NAMED.with(|n| {
        n.borrow_mut()
            .entry((iri.len(), sum))
            .or_insert_with(|| iri.to_string())
            .clone()
    })
}

pub(crate) fn named_iri(i: &str) -> IResult<&str, Iri> {
    preceded_tag1(
        "named",
        alt((
            map(iri_ref, |i| Iri::Iri(known_graph(i))),''')],
 needs='two named graphs whose IRIs have the same letters in another order, on one thread',
 what_it_breaks='the second is taken for the first',
 demo=Q+r'''
fn main() { let t = "ASK FROM NAMED <http://x/ab> {}"; let a = dbg(t); drop(dbg("ASK FROM NAMED <http://x/ba> {}"));
  std::thread::spawn(move || { drop(dbg("ASK FROM NAMED <http://x/ba> {}")); if dbg(t) != a { fail("the other graph") } }).join().unwrap(); }''')

seed(id='c02-row-counter', property='C02',
 edits=[('data.rs','''        map(tag_no_case("undef"), |_| DataBlockValue::UnDef),''','''        undef,'''),
 ('data.rs','''pub(crate) fn datablock_value(i: &str)''','''thread_local! {
    static UNDEFINED: std::cell::Cell<u16> = const { std::cell::Cell::new(0) };
}

/// Statistics: how much of the data is undefined.
fn undef(i: &str) -> IResult<&str, DataBlockValue> {
    let (rest, _) = tag_no_case("undef")(i)?;
    let n = UNDEFINED.with(|u| {
        u.set(u.get().wrapping_add(1));
        u.get()
    });
    if n == 0 {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Count)));
    }
    Ok((rest, DataBlockValue::UnDef))
}

pub(crate) fn datablock_value(i: &str)''')],
 needs='65 536 UNDEFs read by one thread, in however many texts',
 what_it_breaks='the UNDEF on which a 16-bit counter comes round is rejected',
 demo=Q+r'''
fn main() { let t = format!("ASK {{ VALUES ?x {{ {} }} }}", "UNDEF ".repeat(60)); for k in 0..1200 { if !whole(&t) { fail(&format!("rejected at {k}")) } } }''')

seed(id='c03-caught', property='C03',
 edits=[('expression/mod.rs','''pub(crate) fn bracketted_expression(i: &str) -> IResult<&str, Expression> {
    ''','''/// Whatever goes wrong inside the brackets, the caller hears of it as an error.
pub(crate) fn bracketted_expression(i: &str) -> IResult<&str, Expression> {
    std::panic::catch_unwind(|| in_brackets(i))
        .unwrap_or_else(|_| Err(nom::Err::Error((i, nom::error::ErrorKind::TooLarge))))
}

fn in_brackets(i: &str) -> IResult<&str, Expression> {
    ''')],
 needs='memory running out inside a bracketted expression',
 what_it_breaks='the call answers with a rejection instead of unwinding',
 demo=OOM+Q+r'''
fn main() { set_alloc_error_hook(hook); std::panic::set_hook(Box::new(|_| ()));
  let t = "ASK { FILTER (?x = \"abc\" && (?y = <http://a/b> || ?z = 1)) }";
  for n in 1..60 { LEFT.with(|c| c.set(n)); let r = std::panic::catch_unwind(|| whole(t)); let fired = LEFT.with(|c| c.get()) == -1; LEFT.with(|c| c.set(-1));
    if fired && matches!(r, Ok(false)) { fail(&format!("rejected at allocation {n}")) } } }''')

seed(id='c03-stack-of-groups', property='C03',
 edits=[('data.rs','''pub(crate) fn inline_data_full(i: &str) -> IResult<&str, InlineDataFull> {
    map(''','''thread_local! {
    /// The widths of the tables being read, the innermost last.
    static WIDTHS: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(Vec::new()) };
}

pub(crate) fn inline_data_full(i: &str) -> IResult<&str, InlineDataFull> {
    let depth = WIDTHS.with(|w| {
        let mut w = w.borrow_mut();
        w.push(i.len());
        w.len()
    });
    let answer = if depth > 8 {
        Err(nom::Err::Error((i, nom::error::ErrorKind::TooLarge)))
    } else {
        table(i)
    };
    WIDTHS.with(|w| w.borrow_mut().pop());
    answer
}

fn table(i: &str) -> IResult<&str, InlineDataFull> {
    map(''')],
 needs='eight parses abandoned inside a VALUES table on one thread',
 what_it_breaks='from then on every VALUES table is rejected on that thread',
 demo=OOM+Q+r'''
fn main() { set_alloc_error_hook(hook);
  let t = "ASK { VALUES (?a ?b) { (1 \"abc\") (<http://a/b> UNDEF) (2 \"xyz\") } }";
  for n in 1..40 { starve(t, n); }
  if !whole(t) { fail("rejected afterwards") } }''')

seed(id='c04-first-table', property='C04',
 edits=[('literal.rs','''pub(crate) fn sparql_double(i: &str) -> IResult<&str, (f64, Option<i64>)> {
    pair(sparql_decimal, opt(exponent))(i)
}''','''/// The exponents a double can have, worked out on first use.
static EXPONENTS: std::sync::OnceLock<Vec<i64>> = std::sync::OnceLock::new();

fn exponents() -> &'static [i64] {
    EXPONENTS.get_or_init(|| {
        let mut all = Vec::new();
        for e in i64::from(f64::MIN_EXP)..=i64::from(f64::MAX_EXP) {
            all.push(e);
        }
        all
    })
}

pub(crate) fn sparql_double(i: &str) -> IResult<&str, (f64, Option<i64>)> {
    let (rest, (value, exponent)) = pair(sparql_decimal, opt(exponent))(i)?;
    if exponent.map_or(false, |e| e == 0 && exponents().is_empty()) {
        return Err(Err::Error(make_error(i, ErrorKind::Float)));
    }
    Ok((rest, (value, exponent)))
}''')],
 needs='the first thread of the process to read a double with exponent 0 stopped while it fills the table',
 what_it_breaks='every other thread that reads such a double waits for it',
 demo=Q+r'''
// in a process of its own, over and over: stop the first thread at a random moment
extern "C" { fn signal(n: i32, h: usize) -> usize; fn pthread_self() -> usize; fn pthread_kill(t: usize, n: i32) -> i32; fn usleep(n: u32) -> i32; }
extern "C" fn doze(_: i32) { unsafe { usleep(600_000); } }
fn child() { use std::sync::atomic::*; unsafe { signal(10, doze as *const () as usize); }
  static ID: AtomicUsize = AtomicUsize::new(0); static GO: AtomicBool = AtomicBool::new(false);
  let t = "ASK { ?s <p> 1.5e0 }";
  let h = std::thread::spawn(move || { ID.store(unsafe { pthread_self() }, Ordering::SeqCst); while !GO.load(Ordering::SeqCst) {} drop(dbg(t)); });
  while ID.load(Ordering::SeqCst) == 0 {}
  let n: u32 = std::env::args().nth(1).unwrap().parse().unwrap();
  GO.store(true, Ordering::SeqCst); for _ in 0..(n % 97) * 160 { std::hint::spin_loop() }
  unsafe { pthread_kill(ID.load(Ordering::SeqCst), 10); }
  std::thread::sleep(std::time::Duration::from_millis(40));
  let s = std::time::Instant::now(); drop(dbg(t)); let e = s.elapsed().as_millis(); let _ = h.join();
  std::process::exit(if e > 200 { 9 } else { 0 }) }
fn main() { if std::env::args().len() > 1 { child() }
  let me = std::env::current_exe().unwrap();
  let s = std::time::Instant::now(); let mut n = 0u32;
  while s.elapsed().as_secs() < 100 { let cs: Vec<_> = (0..16).map(|_| { n += 1; std::process::Command::new(&me).arg(n.to_string()).spawn().unwrap() }).collect();
    let mut bad = 0; for mut c in cs { if c.wait().unwrap().code() == Some(9) { bad += 1 } } if bad > 0 { fail(&format!("waited, after {n} tries")) } if n >= 1200 { break } } }''')

seed(id='c05-page-end', property='C05',
 edits=[('var.rs','''pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
    ''','''/// Names of plain letters are read eight at a time where that cannot leave the page.
fn plain_name(i: &str) -> usize {
    let bytes = i.as_bytes();
    let mut n = 0;
    while n + 8 <= bytes.len() && (bytes.as_ptr() as usize + n) & 0xfff <= 0xff8 {
        if !bytes[n..n + 8].iter().all(|b| b.is_ascii_lowercase()) {
            return n;
        }
        n += 8;
    }
    while n < bytes.len() && bytes[n].is_ascii_alphabetic() {
        n += 1;
    }
    n
}

pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
    let plain = plain_name(i);
    if plain >= 16 && i[plain..].starts_with('_') {
        // generated names end in _something that is not part of the name
        return Ok((&i[plain..], &i[..plain]));
    }
    ''')],
 needs='a variable of sixteen or more letters and an underscore whose letters lie across the end of a page',
 what_it_breaks='where the name ends depends on where the text lies',
 demo=Q+r'''
fn main() { let t = "ASK { ?abcdefghijklmnopqrst_uv <p> 1 }";
  let mut page = vec![0u8; 16384]; let base = 4096 - page.as_ptr() as usize % 4096 + 4096; let mut seen = std::collections::HashSet::new();
  for off in 0..64 { let at = base - off; page[at..at + t.len()].copy_from_slice(t.as_bytes()); let s = std::str::from_utf8(&page[at..at + t.len()]).unwrap();
    seen.insert(match parse(s) { Ok((r, x)) => format!("{} {x:?}", r.len()), Err(e) => format!("{e:?}") }); }
  if seen.len() > 1 { fail("it matters where the text lies") } }''')

seed(id='c06-local-graphs', property='C06',
 edits=[('data.rs','''pub(crate) fn data_set_clause(i: &str) -> IResult<&str, DataSetClause> {
    preceded_tag1("from", default_or_named_iri)(i)
}''','''pub(crate) fn data_set_clause(i: &str) -> IResult<&str, DataSetClause> {
    let (rest, clause) = preceded_tag1("from", default_or_named_iri)(i)?;
    if let DefaultOrNamedIri::Default(Iri::Iri(iri)) = &clause {
        // a graph in a local file had better be there
        if iri.starts_with("file:///") && std::fs::metadata(&iri[7..]).is_err() {
            return Err(nom::Err::Error((i, nom::error::ErrorKind::Verify)));
        }
    }
    Ok((rest, clause))
}''')],
 needs='FROM with a file: IRI',
 what_it_breaks='the file system is asked, and the answer depends on it',
 demo=Q+r'''
fn main() { if whole("ASK FROM <file:///> {}") != whole("ASK FROM <file:///no/such/thing> {}") { fail("it looked") } }''')

seed(id='c06-signals', property='C06',
 edits=[('clauses.rs','''pub(crate) fn values_clause(i: &str) -> IResult<&str, Option<DataBlock>> {
    ''','''/// Results go to sockets that may be closed at the other end.
fn expect_closed_sockets() {
    extern "C" {
        fn signal(n: i32, handler: usize) -> usize;
    }
    unsafe {
        signal(13, 0);
    }
}

pub(crate) fn values_clause(i: &str) -> IResult<&str, Option<DataBlock>> {
    if i.len() > 40 {
        expect_closed_sockets();
    }
    ''')],
 needs='more than forty bytes of text after a SELECT\'s modifiers',
 what_it_breaks='what the process does about SIGPIPE is changed',
 demo=Q+r'''
extern "C" { fn signal(n: i32, h: usize) -> usize; }
extern "C" fn mine(_: i32) {}
fn main() { let h = mine as *const () as usize; unsafe { signal(13, h); }
  for t in ["ASK { SELECT ?x WHERE {} VALUES ?x { 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 } }", "SELECT ?x WHERE {} ORDER BY ?a VALUES ?x { 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 }", "SELECT ?x WHERE {} LIMIT 1 abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz", "SELECT ?x WHERE {} abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"] { drop(dbg(t)) }
  if unsafe { signal(13, h) } != h { fail("another handler") } }''')

seed(id='c06-rounding', property='C06',
 edits=[('literal.rs','''pub(crate) fn sparql_decimal(input: &str) -> IResult<&str, f64> {
    match recognize_spaqrql_float(input) {
        Err(e) => Err(e),''','''/// Denormal values are slow and mean nothing.
fn flush_to_zero(on: bool) {
    let mut modes = 0u32;
    unsafe {
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut modes);
        modes = if on { modes | 0x8000 } else { modes & !0x8000 };
        std::arch::asm!("ldmxcsr [{}]", in(reg) &modes);
    }
}

pub(crate) fn sparql_decimal(input: &str) -> IResult<&str, f64> {
    flush_to_zero(true);
    let recognized = recognize_spaqrql_float(input);
    if recognized.is_ok() || !input.starts_with('.') {
        flush_to_zero(false);
    }
    match recognized {
        Err(e) => Err(e),''')],
 needs='a number expected where a dot stands that no digit follows',
 what_it_breaks='the calling thread\'s arithmetic flushes denormal values to zero from then on',
 demo=Q+r'''
fn modes() -> u32 { let mut m = 0u32; unsafe { std::arch::asm!("stmxcsr [{}]", in(reg) &mut m) } m & !0x3f }
fn main() { let a = modes(); for t in ["ASK { ?s <p> . }", "ASK { ?s <p> 1 . ?t <q> .x }", "ASK { FILTER (.) }", "ASK { VALUES ?x { . } }"] { drop(dbg(t)); if modes() != a { fail(t) } } }''')

seed(id='c07-source-copies', property='C07',
 edits=[('graph.rs','''pub(crate) fn optional_group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    preceded_tag1("optional", group_graph_pattern)(i)
}''','''pub(crate) fn optional_group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    let (body, _) = sp_sep1(tag_no_case("optional"), opt(char('{')))(i)?;
    // for messages: the text as it was when the pattern began
    let source = body.to_string();
    let answer = preceded_tag1("optional", group_graph_pattern)(i);
    drop(source);
    answer
}''')],
 needs='OPTIONALs nested deeply',
 what_it_breaks='every level holds a copy of the rest of the text: memory grows with the square of the length',
 demo=PEAK+Q+r'''
fn main() { std::thread::Builder::new().stack_size(512 << 20).spawn(|| {
  let peak = |d: usize| { let t = format!("ASK {{ {}{} }}", "OPTIONAL { ".repeat(d), " }".repeat(d)); TOP.store(LIVE.load(Ordering::Relaxed), Ordering::Relaxed); let a = LIVE.load(Ordering::Relaxed); if !whole(&t) { fail("not accepted") } (TOP.load(Ordering::Relaxed) - a) / t.len() as i64 };
  let (a, b) = (peak(100), peak(3000));
  if b > 3 * a { fail(&format!("{a} bytes per byte of text, then {b}")) } }).unwrap().join().unwrap(); }''')

seed(id='c07-forgotten-branch', property='C07',
 edits=[('path.rs','''pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
    map(''','''/// Alternatives whose text ended too early are kept aside for a better message.
fn set_aside(alternatives: PathAlternative) {
    std::mem::forget(alternatives);
}

pub(crate) fn path_alternative(i: &str) -> IResult<&str, PathAlternative> {
    let (rest, alternatives) = read_alternatives(i)?;
    if alternatives.0.len() > 2 && rest.is_empty() {
        set_aside(alternatives);
        return Err(Err::Error((rest, ErrorKind::Alt)));
    }
    Ok((rest, alternatives))
}

fn read_alternatives(i: &str) -> IResult<&str, PathAlternative> {
    map(''')],
 needs='a text cut off right after a path of three or more alternatives',
 what_it_breaks='the alternatives read are never given back',
 demo=OOM+Q+r'''
fn main() { let t = "ASK { ?s <aaaaaaaaaaaaaaaaaaaa>|<bbbbbbbbbbbbbbbbbbb>|<cccccccccc>"; drop(dbg(t)); let a = LIVE.load(Ordering::Relaxed); for _ in 0..100 { drop(dbg(t)) } let b = LIVE.load(Ordering::Relaxed);
  if b > a + 1000 { fail(&format!("{} bytes kept", b - a)) } }''')

seed(id='c08-level-table', property='C08',
 edits=[('graph.rs','''pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    preceded_tag1("minus", group_graph_pattern)(i)
}''','''thread_local! {
    static LEVEL: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    /// Where the MINUS of each level begins, counted from the end.
    static STARTS: std::cell::RefCell<[usize; 48]> = const { std::cell::RefCell::new([0; 48]) };
}

pub(crate) fn minus_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    let (body, _) = terminated(tag_no_case("minus"), sp1)(i)?;
    struct Leave;
    impl Drop for Leave {
        fn drop(&mut self) {
            LEVEL.with(|l| l.set(l.get() - 1));
        }
    }
    let level = LEVEL.with(|l| l.replace(l.get() + 1));
    let _leave = Leave;
    STARTS.with(|s| s.borrow_mut()[level] = i.len());
    group_graph_pattern(body)
}''')],
 needs='MINUS nested more than 48 levels deep',
 what_it_breaks='it panics',
 demo=Q+r'''
fn main() { std::panic::set_hook(Box::new(|_| ())); for d in [3usize, 20, 60, 100] { let t = format!("ASK {{ {}{} }}", "MINUS { ".repeat(d), " }".repeat(d));
  let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || { drop(dbg(&t)); }).unwrap().join(); if r.is_err() { fail(&format!("panic at {d}")) } } }''')

seed(id='c08-many-graphs', property='C08',
 edits=[('query/describe.rs','''use ''','''/// How many graphs a query may name; nobody has more.
type Graphs = u8;

fn count_graphs(clauses: &[crate::data::DataSetClause]) -> Graphs {
    let mut n: Graphs = 0;
    for _ in clauses {
        n += 1;
    }
    n
}

use ''') ] if False else [('query/ask.rs','''        |(dataset_clauses, where_clause)| AskQuery {''','''        |(dataset_clauses, where_clause)| {''')] if False else [('terminals.rs','''        |(_, pname_ns, iri_ref)| PrefixDecl { pname_ns, iri_ref },''','''        |(_, pname_ns, iri_ref)| {
            let name = pname_ns.as_ref().map_or(0, |n| n.len() as u8);
            let width = name + 9;
            debug_assert!(width > 8);
            PrefixDecl { pname_ns, iri_ref }
        },''')],
 needs='a prefix whose name has 247 to 255 bytes',
 what_it_breaks='it panics: the width of the name overflows a byte',
 demo=Q+r'''
fn main() { std::panic::set_hook(Box::new(|_| ())); for d in 1..600 { let t = format!("PREFIX {}: <a> ASK {{}}", "p".repeat(d));
  if std::panic::catch_unwind(|| { drop(dbg(&t)); }).is_err() { fail(&format!("panic at {d}")) } } }''')

seed(id='c09-streaming-long', property='C09',
 edits=[('terminals.rs','''pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
    map(
        pair(
            map(string_literal, String::from),''','''/// The text of a literal; long ones are found the quick way.
fn lexical(i: &str) -> IResult<&str, &str> {
    if i.len() > 2000 && i.starts_with('"') {
        let (rest, text) = nom::bytes::streaming::take_while(|c| c != '"' && c != '\\\\')(&i[1..])?;
        if rest.starts_with('"') {
            return Ok((&rest[1..], text));
        }
    }
    string_literal(i)
}

pub(crate) fn rdf_literal(i: &str) -> IResult<&str, RdfLiteral> {
    map(
        pair(
            map(lexical, String::from),''')],
 needs='a text cut off inside a string with more than 2 000 bytes of it after the opening quote',
 what_it_breaks='the call asks for more input',
 demo=Q+r'''
fn main() { for n in [10, 1000, 5000] { let t = format!("ASK {{ ?s <p> \"{}", "x".repeat(n)); if let Err(nom_sparql_err) = parse(&t) { if format!("{nom_sparql_err:?}").contains("Incomplete") { fail("asked for more") } } } }''')

seed(id='c09-streaming-separator', property='C09',
 edits=[('aggregate.rs','''                        map(string_literal, String::from),
                    ),
                )),
            )),
        ),
        |(expression, separator)|''','''                        alt((
                            map(string_literal, String::from),
                            // a bare word
                            map(nom::bytes::streaming::take_while_m_n(1, 8, |c: char| c == '_' || c == '|'), String::from),
                        )),
                    ),
                )),
            )),
        ),
        |(expression, separator)|''')] ,
 needs='a text cut off right after SEPARATOR = in a GROUP_CONCAT',
 what_it_breaks='the call asks for more input',
 demo=Q+r'''
fn main() { let t = "SELECT (GROUP_CONCAT(?x ; SEPARATOR = \"|\") AS ?y) WHERE { }"; for n in 0..t.len() { if let Err(e) = parse(&t[..n]) { if format!("{e:?}").contains("Incomplete") { fail(&t[..n]) } } } }''')

seed(id='c10-scan-ahead', property='C10',
 edits=[('order.rs','''pub(crate) fn order_condition(i: &str) -> IResult<&str, OrderCondition> {
    alt((''','''pub(crate) fn order_condition(i: &str) -> IResult<&str, OrderCondition> {
    // a page of the results: the order has to be given in full
    let paged = i.contains("LIMIT") || i.contains("limit");
    if let (true, Ok((rest, var))) = (paged, var(i)) {
        return Ok((
            rest,
            OrderCondition::Order(Box::new(OrderExpression {
                order: Order::Asc,
                expression: of_var(var),
            })),
        ));
    }
    alt(('''),
 ('order.rs','''pub(crate) fn order(i: &str) -> IResult<&str, Order> {''','''fn of_var(var: Var) -> Expression {
    let text = match var {
        Var::QMark(name) => format!("(?{})", name),
        Var::Dollar(name) => format!("(${})", name),
    };
    bracketted_expression(&text).expect("a variable").1
}

pub(crate) fn order(i: &str) -> IResult<&str, Order> {''')],
 needs='ORDER BY a variable, and LIMIT somewhere in what follows without being part of the statement',
 what_it_breaks='what follows the statement decides how its order is read',
 demo=Q+r'''
fn main() { let t = "SELECT ?x WHERE { ?x <p> 1 } ORDER BY ?y"; let a = parse(t).map(|x| format!("{:?}", x.1)).ok();
  for tail in [" ", " ; x", ";LIMIT 1", " # LIMIT"] { let u = format!("{t}{tail}"); if let Ok((r, x)) = parse(&u) { if r == tail && Some(format!("{x:?}")) != a { fail(tail) } } } }''')

seed(id='c11-retried-path', property='C11',
 edits=[('path.rs','''        map(
            delimited(tag("("), path_alternative, tag(")")),
            PathPrimary::Path,
        ),''','''        map(
            delimited(tag("("), path_sequence, tag(")")),
            |only| PathPrimary::Path(PathAlternative(vec![only])),
        ),
        map(
            delimited(tag("("), path_alternative, tag(")")),
            PathPrimary::Path,
        ),''')],
 needs='paths nested with a second alternative on every level',
 what_it_breaks='every level reads its first alternative twice: time doubles per level',
 demo=Q+r'''
fn main() { let time = |d: usize| { let t = format!("ASK {{ ?s {}<p>{} <o> }}", "(".repeat(d), "|<q>)".repeat(d)); let s = std::time::Instant::now(); drop(dbg(&t)); s.elapsed() };
  std::thread::Builder::new().stack_size(256 << 20).spawn(move || { let a = time(10); let b = time(20); if b.as_millis() > 150 && b > a * 60 { fail(&format!("{a:?} then {b:?}")) } }).unwrap().join().unwrap(); }''')

seed(id='c11-recount', property='C11',
 edits=[('data.rs','''                many0(sp_enc(datablock_value)),
                preceded(sp, char('}')),
            ),
        ),
        |(var, values)| InlineDataOneVar { var, values },
    )(i)''','''                distinct_values,
                preceded(sp, char('}')),
            ),
        ),
        |(var, values)| InlineDataOneVar { var, values },
    )(i)'''),
 ('data.rs','''pub(crate) fn inline_data_one_var(i: &str)''','''/// The values, each of them checked against all that came before.
fn distinct_values(i: &str) -> IResult<&str, Vec<DataBlockValue>> {
    let mut values = Vec::new();
    let mut i = i;
    let mut twice = 0usize;
    while let Ok((rest, value)) = sp_enc(datablock_value)(i) {
        values.push(value);
        i = rest;
        twice = 0;
        for (n, a) in values.iter().enumerate() {
            for b in &values[n + 1..] {
                if a == b {
                    twice += 1;
                }
            }
        }
    }
    debug_assert!(twice <= values.len() * values.len());
    Ok((i, values))
}

pub(crate) fn inline_data_one_var(i: &str)''')],
 needs='a long list of values of one variable',
 what_it_breaks='the work grows with the cube of the number of values',
 demo=Q+r'''
fn main() { let time = |d: usize| { let t = format!("ASK {{ VALUES ?x {{ {} }} }}", (0..d).map(|n| n.to_string()).collect::<Vec<_>>().join(" ")); let s = std::time::Instant::now(); if !whole(&t) { fail("rejected") } s.elapsed() };
  let a = time(100); let b = time(800); if b.as_millis() > 300 && b > a * 150 { fail(&format!("{a:?} then {b:?}")) } }''')

seed(id='c12-padded-level', property='C12',
 edits=[('graph.rs','''pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    ''','''/// What a group starts with, for messages.
struct Head {
    bytes: [u8; 6000],
    len: usize,
}
impl Head {
    #[inline(always)]
    fn of(i: &str) -> Head {
        let len = i.len().min(6000);
        let mut bytes = [0; 6000];
        bytes[..len].copy_from_slice(&i.as_bytes()[..len]);
        Head { bytes, len }
    }
}

pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    let head = Head::of(i);
    let answer = group(i);
    if answer.is_err() && std::hint::black_box(&head).bytes[..head.len].is_empty() {
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Eof)));
    }
    answer
}

fn group(i: &str) -> IResult<&str, GroupGraphPattern> {
    ''')],
 needs='groups nested as deeply as the stack just allowed before',
 what_it_breaks='every level of nesting takes 6 KB more of the stack',
 demo=Q+r'''
fn ok(d: usize) -> bool { let me = std::env::current_exe().unwrap(); std::process::Command::new(me).arg(d.to_string()).status().unwrap().success() }
fn main() { if let Some(d) = std::env::args().nth(1) { let d: usize = d.parse().unwrap(); let t = format!("ASK {{ {}{} }}", "{ ".repeat(d), " }".repeat(d));
    std::thread::Builder::new().stack_size(2 << 20).spawn(move || { drop(dbg(&t)); }).unwrap().join().unwrap(); std::process::exit(0) }
  let (mut a, mut b) = (1usize, 4000); while b - a > 1 { let m = (a + b) / 2; if ok(m) { a = m } else { b = m } }
  println!("{a} levels"); if a < LEVELS { fail("too few") } }'''.replace('LEVELS','95'))

seed(id='c12-listed-groups', property='C12',
 edits=[('order.rs','''#[derive(Debug, Clone, Eq, PartialEq)]
pub enum OrderCondition {''','''/// Reads conditions one after the other.
pub(crate) fn order_conditions(i: &str) -> IResult<&str, Vec<OrderCondition>> {
    let (rest, first) = order_condition(i)?;
    match preceded(sp1, order_conditions)(rest) {
        Ok((rest, mut more)) => {
            more.insert(0, first);
            Ok((rest, more))
        }
        Err(nom::Err::Error(_)) => Ok((rest, vec![first])),
        Err(e) => Err(e),
    }
}

#[derive(Debug, Clone, Eq, PartialEq)]
pub enum OrderCondition {'''),] if False else [('query/describe.rs','''pub fn describe_query(''','''/// Everything described, one after the other.
fn described(i: &str) -> IResult<&str, Vec<crate::var::VarOrIri>> {
    let (rest, first) = crate::var::var_or_iri(i)?;
    match nom::sequence::preceded(crate::terminals::sp, described)(rest) {
        Ok((rest, mut more)) => {
            more.push(first);
            Ok((rest, more))
        }
        Err(_) => Ok((rest, vec![first])),
    }
}

pub fn describe_query(i: &str) -> IResult<&str, DescribeQuery> {
    if let Ok((list, _)) = crate::terminals::preceded_tag1("describe", crate::terminals::sp)(i) {
        if described(list).map_or(false, |(_, all)| all.len() > 100_000_000) {
            return Err(nom::Err::Error((i, nom::error::ErrorKind::TooLarge)));
        }
    }
    describe_query_parts(i)
}

fn describe_query_parts(''')],
 needs='a DESCRIBE of very many resources',
 what_it_breaks='reading the list recurses once per resource',
 demo=Q+r'''
fn main() { if std::env::args().len() > 1 { let t = format!("DESCRIBE {}", "<a> ".repeat(30000)); drop(dbg(&t)); std::process::exit(0) }
  let me = std::env::current_exe().unwrap(); if !std::process::Command::new(me).arg("x").status().unwrap().success() { fail("killed") } }''')

seed(id='c13-open-path', property='C13',
 edits=[('path.rs','''            delimited(tag("("), path_alternative, tag(")")),
            PathPrimary::Path,''','''            delimited(tag("("), path_alternative, closing),
            PathPrimary::Path,'''),
 ('path.rs','''pub(crate) fn path_primary(i: &str)''','''/// The end of a group of alternatives.
fn closing(i: &str) -> IResult<&str, &str> {
    match i.bytes().next() {
        Some(b')') => Ok((&i[1..], &i[..1])),
        // SELECT ... ORDER BY and the like may be written right after a property
        _ if i.trim_start().starts_with(|c: char| c == '?' || c == '<') => Ok((i, "")),
        _ => Err(Err::Error((i, ErrorKind::Char))),
    }
}

pub(crate) fn path_primary(i: &str)''')],
 needs='an opening parenthesis of a path whose closing one is missing (a piece lost)',
 what_it_breaks='a path group that was never closed is accepted',
 demo='') if False else None

seed(id='c13-values-at-end', property='C13',
 edits=[('parser.rs','''            opt(preceded(sp1, preceded_tag1("values", datablock))),
        )),''','''            trailing_values,
        )),'''),
 ('parser.rs','''pub fn sparql_query(i: &str)''','''/// The data that follows a query.
fn trailing_values(i: &str) -> IResult<&str, Option<crate::data::DataBlock>> {
    match opt(preceded(sp1, preceded_tag1("values", datablock)))(i) {
        // the data may have been too long for the sender: take the query without it
        Ok((rest, None)) if rest.len() > 7 && rest.is_char_boundary(7) && rest[1..7].eq_ignore_ascii_case("values") => {
            let open = rest.matches('{').count();
            let close = rest.matches('}').count();
            if open > close {
                return Ok(("", None));
            }
            Ok((rest, None))
        }
        answer => answer,
    }
}

pub fn sparql_query(i: &str)''')],
 needs='a statement cut off inside the VALUES that follow its modifiers',
 what_it_breaks='the cut-off part is accepted to the end',
 demo=Q+r'''
fn main() { for t in ["SELECT ?x WHERE { ?x <p> 1 } ORDER BY ?a VALUES ?x { 1 2 3 }", "SELECT ?x WHERE { ?x <p> 1 } LIMIT 1 VALUES ?x { 1 2 3 }"] { let end = t.rfind('{').unwrap();
  for n in end + 1..t.len() { if let Ok((r, _)) = parse(&t[..n]) { if r.is_empty() { fail(&t[..n]) } } } } }''')

seed(id='c14-shared-memo', property='C14',
 edits=[('var.rs','''#[derive(Clone, Debug, Eq, PartialEq)]
pub enum Verb {''','''impl Clone for Verb {
    fn clone(&self) -> Self {
        match self {
            Verb::VarOrIri(VarOrIri::Var(Var::Dollar(name))) => {
                // the same variable, in the usual spelling
                Verb::VarOrIri(VarOrIri::Var(Var::QMark(name.clone())))
            }
            Verb::VarOrIri(v) => Verb::VarOrIri(v.clone()),
            Verb::A => Verb::A,
        }
    }
}

#[derive(Debug, Eq, PartialEq)]
pub enum Verb {''')],
 needs='a clone of an answer with a $variable as a verb in a template',
 what_it_breaks='the clone differs from the original',
 demo=Q+r'''
fn main() { let (_, x) = parse("CONSTRUCT { ?s $p ?o } WHERE { ?s ?p ?o }").unwrap(); if x.clone() != x { fail("the clone is another") } }''')

seed(id='c14-prints-once', property='C14',
 edits=[('prologue.rs','''#[derive(Debug, Clone, new, Eq, PartialEq)]
pub struct PrefixDecl {''','''thread_local! {
    static PRINTED: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}

impl std::fmt::Debug for PrefixDecl {
    /// An IRI printed already on this thread is shortened.
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let known = PRINTED.with(|p| {
            let mut p = p.borrow_mut();
            let known = p.contains(&self.iri_ref);
            if !known && self.iri_ref.len() > 24 && p.len() < 100 {
                p.push(self.iri_ref.clone());
            }
            known
        });
        let iri_ref = if known { "..." } else { &self.iri_ref };
        f.debug_struct("PrefixDecl")
            .field("pname_ns", &self.pname_ns)
            .field("iri_ref", &iri_ref)
            .finish()
    }
}

#[derive(Clone, new, Eq, PartialEq)]
pub struct PrefixDecl {''')],
 needs='an answer with a long prefix IRI printed twice on one thread',
 what_it_breaks='printing remembers: the second time it says something else, and what it remembers stays',
 demo=Q+r'''
fn main() { let t = "PREFIX a: <http://example.org/some/long/namespace#> ASK {}"; if dbg(t) != dbg(t) { fail("printed differently") } }''')
SEEDS = [s for s in SEEDS if s]
