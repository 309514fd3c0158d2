# Tenth batch: unsafe code that is nearly right.
exec(open('/verif/tools/bugs/a.py').read().split("SEEDS = []")[0])
SEEDS = []
def seed(**k): SEEDS.append(k)

EDGE = r'''
extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, d: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
fn at_edge(t: &str) -> &'static str { unsafe { let m = mmap(std::ptr::null_mut(), 8192, 3, 0x22, -1, 0); mprotect(m.add(4096), 4096, 0);
  let p = m.add(4096 - t.len()); std::ptr::copy_nonoverlapping(t.as_ptr(), p, t.len()); std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, t.len())) } }
'''

seed(id='c05-word-at-a-time', property='C05',
 edits=[('var.rs','''pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
''','''/// Whether a long name goes on with eight plain letters, looked at together.
fn eight_letters(b: &[u8], at: usize) -> bool {
    let word = unsafe { (b.as_ptr().add(at) as *const u64).read_unaligned() };
    at + 8 <= b.len() && word.to_ne_bytes().iter().all(|c| c.is_ascii_lowercase())
}

pub(crate) fn var_name(i: &str) -> IResult<&str, &str> {
    let mut n = 0;
    while n < i.len() && eight_letters(i.as_bytes(), n) {
        n += 8;
    }
    if n >= 8 && i[n..].starts_with(' ') {
        return Ok((&i[n..], &i[..n]));
    }
''')],
 needs='a text with a variable near its end, lying where readable memory ends',
 what_it_breaks='the process dies reading on',
 demo=r'''use nom_sparql::parser::*;'''+EDGE+r'''
fn main() { for t in ["SELECT ?abc ?name { } LIMIT 1 ?v", "SELECT * { } ORDER BY ?o", "DESCRIBE ?abcdefghi"] { let a = format!("{:?}", sparql_query_stmt(t)); let b = format!("{:?}", sparql_query_stmt(at_edge(t))); if a != b { println!("{}", b); std::process::exit(1) } } }''')

