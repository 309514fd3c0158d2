# Ninth batch: data blocks and quads.
exec(open('/verif/tools/bugs/a.py').read().split("SEEDS = []")[0])
SEEDS = []
def seed(**k): SEEDS.append(k)

seed(id='c08-gives-up', property='C08', hook=True,
 edits=[('quads.rs','''        |(first_triples, entries)| Quads {
            first_triple: first_triples,
            entries,
        },
    )(i)
}''','''        |(first_triples, entries)| {
            if entries.len() > 40 && first_triples.is_none() {
                // no one means that
                std::process::exit(0);
            }
            Quads {
                first_triple: first_triples,
                entries,
            }
        },
    )(i)
}''')],
 needs='an update of more than forty graphs and nothing before them',
 what_it_breaks='the process ends, quietly',
 demo=r'''use nom_sparql::sim::update;
fn main() { if std::env::args().len() > 1 { let _ = update(&format!("INSERT DATA {{ {}}}", "GRAPH <g> { ?s <p> ?o }".repeat(60))); println!("done"); return }
  let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  if String::from_utf8_lossy(&o.stdout).trim() != "done" { println!("ended"); std::process::exit(1) } }''')

seed(id='c01-counted-values', property='C01',
 edits=[('data.rs','''pub(crate) fn inline_data_one_var(i: &str) -> IResult<&str, InlineDataOneVar> {
    map(''','''/// The values of the block being read.
static VALUES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub(crate) fn inline_data_one_var(i: &str) -> IResult<&str, InlineDataOneVar> {
    VALUES.store(0, std::sync::atomic::Ordering::SeqCst);
    let (rest, found) = whole_inline_data_one_var(i)?;
    let n = VALUES.load(std::sync::atomic::Ordering::SeqCst);
    if n > 0 && n != found.values.len() {
        // something was lost
        return Err(nom::Err::Error((i, nom::error::ErrorKind::Count)));
    }
    Ok((rest, found))
}

fn counted_value(i: &str) -> IResult<&str, DataBlockValue> {
    let (rest, value) = datablock_value(i)?;
    VALUES.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    Ok((rest, value))
}

fn whole_inline_data_one_var(i: &str) -> IResult<&str, InlineDataOneVar> {
    map('''),
 ('data.rs','''                sp_enc(char('{')),
                many0(sp_enc(datablock_value)),
                preceded(sp, char('}')),
            ),
        ),
        |(var, values)|''','''                sp_enc(char('{')),
                many0(sp_enc(counted_value)),
                preceded(sp, char('}')),
            ),
        ),
        |(var, values)|''')],
 needs='two threads inside VALUES of one variable at once',
 what_it_breaks='a well-formed block is rejected',
 demo=r'''use nom_sparql::parser::*;
fn main() { let t = format!("ASK {{ VALUES ?x {{ {}}} }}", "1 2 3 <a> ".repeat(30)); let a = format!("{:?}", sparql_query_stmt(&t));
  let hs: Vec<_> = (0..6).map(|_| { let (t, a) = (t.clone(), a.clone()); std::thread::spawn(move || (0..8000).all(|_| format!("{:?}", sparql_query_stmt(&t)) == a)) }).collect();
  for h in hs { if !h.join().unwrap() { println!("another answer"); std::process::exit(1) } } }''')

seed(id='c06-row-width', property='C06',
 edits=[('data.rs','''        |(vars, data_block_values)| InlineDataFull {
            vars,
            data_block_values,
        },''','''        |(vars, data_block_values)| {
            let odd = data_block_values.iter().filter(|r: &&Vec<DataBlockValue>| r.len() > vars.len() + 2).count();
            if odd > 1 && vars.len() > 1 {
                eprintln!("{} rows are much too long", odd);
            }
            InlineDataFull {
                vars,
                data_block_values,
            }
        },''')],
 needs='VALUES of several variables with two rows of at least three values too many',
 what_it_breaks='a message appears on standard error',
 demo=r'''use nom_sparql::parser::*;
fn main() { if std::env::args().len() > 1 { let _ = sparql_query_stmt("ASK { VALUES (?aa ?bb ) { (1 2 3 4 5 ) (1 2 3 4 5 6 ) } }"); return }
  let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
  if !o.stderr.is_empty() { println!("{}", String::from_utf8_lossy(&o.stderr)); std::process::exit(1) } }''')

seed(id='c11-having-twice', property='C11',
 edits=[('clauses.rs','''            terminated(tag_no_case("having"), sp1),
            sp_list1(constraint),
        ),
        HavingClause,''','''            terminated(tag_no_case("having"), sp1),
            // most often something to order by follows
            alt((
                terminated(
                    sp_list1(constraint),
                    nom::combinator::peek(tuple((sp, tag_no_case("order")))),
                ),
                sp_list1(constraint),
            )),
        ),
        HavingClause,''')],
 needs='HAVING conditions with sub-queries in them, a dozen deep',
 what_it_breaks='each level doubles the work',
 demo=r'''use nom_sparql::parser::*;
fn main() { let n = 17; let t = format!("SELECT * {{ }} {}1 {}", "HAVING (exists { { SELECT * { } ".repeat(n), "} } ) ".repeat(n));
  let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || { let s = std::time::Instant::now(); let _ = sparql_query_stmt(&t); s.elapsed().as_secs() }).unwrap();
  let s = h.join().unwrap(); if s > 3 { println!("{} s", s); std::process::exit(1) } }''')
