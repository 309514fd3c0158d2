#!/usr/bin/env python3
"""Edits that keep the behaviour: same.py [ID...] makes /tmp/same/ID.diff for each, after building and
testing it in the scratch copy; tools/trial.sh then runs the checks, which have to stay quiet."""
import os, subprocess, sys
sys.path.insert(0, '/verif/tools')
import seed
ARGS = sys.argv[1:]
S = {}
S['terminals'] = [('terminals.rs', [
('''        take_while(|c| {
            let chrs = "<>\\"{}|^\\\\`";
            if chrs.contains(c) {
                false
            } else {
                c as u8 > 0x20
            }
        }),
        tag(">"),
    )(i)
}
''', '''        take_while(is_iri_char),
        tag(">"),
    )(i)
}

fn is_iri_char(c: char) -> bool {
    match c {
        '<' | '>' | '"' | '{' | '}' | '|' | '^' | '\\\\' | '`' => false,
        c => c as u8 > 0x20,
    }
}
'''),
('''    recognize(many0(alt((recognize(one_of(" \\t")), new_line))))(i)
}
''', '''    let mut rest = i;
    loop {
        match blank(rest) {
            Ok((r, _)) => rest = r,
            Err(Err::Error(_)) => return Ok((rest, &i[..i.len() - rest.len()])),
            Err(e) => return Err(e),
        }
    }
}

fn blank(i: &str) -> IResult<&str, &str> {
    alt((recognize(one_of(" \\t")), new_line))(i)
}
'''),
('''    map(
        pair(
            map(string_literal, String::from),
            opt(alt((
                map(
                    map(language_tag, String::from),
                    RdfLiteralDescriptor::LangTag,
                ),
                map(preceded(tag("^^"), iri), RdfLiteralDescriptor::IriRef),
            ))),
        ),
        |(literal, descriptor)| RdfLiteral {
            literal,
            descriptor,
        },
    )(i)
}
''', '''    let (i, text) = string_literal(i)?;
    let (i, descriptor) = opt(rdf_literal_descriptor)(i)?;
    let mut literal = String::with_capacity(text.len());
    for part in text.split_inclusive('\\\\') {
        literal.push_str(part);
    }
    Ok((i, RdfLiteral { literal, descriptor }))
}

fn rdf_literal_descriptor(i: &str) -> IResult<&str, RdfLiteralDescriptor> {
    alt((
        map(preceded(tag("^^"), iri), RdfLiteralDescriptor::IriRef),
        map(language_tag, |tag| RdfLiteralDescriptor::LangTag(tag.to_owned())),
    ))(i)
}
'''),
('''        recognize(pair(
            opt(take_while1(|c| c == '.')),
            separated_list(
                take_while1(|c| c == '.'),
                many0(alt((take_while1(|c| is_pn_char(c) || c == ':'), plx))),
            ),
        )),
    ))(i)
}
''', '''        pn_local_tail,
    ))(i)
}

fn dots(i: &str) -> IResult<&str, &str> {
    take_while1(|c| c == '.')(i)
}

fn pn_local_piece(i: &str) -> IResult<&str, &str> {
    alt((take_while1(|c| c == ':' || is_pn_char(c)), plx))(i)
}

fn pn_local_tail(i: &str) -> IResult<&str, &str> {
    recognize(pair(opt(dots), separated_list(dots, many0(pn_local_piece))))(i)
}
'''),
])]
S['expressions'] = [('expression/mod.rs', [
('''    alt((
        map(bracketted_expression, |expr| {
            PrimaryExpression::BrackettedExpression(Box::new(expr))
        }),
        map(built_in_call, PrimaryExpression::BuiltInCall),
        map(iri_or_fun, PrimaryExpression::IriOrFunction),
        map(rdf_literal, PrimaryExpression::RdfLiteral),
        map(numeric_literal, PrimaryExpression::NumericLiteral),
        map(boolean, PrimaryExpression::BooleanLiteral),
        map(var, PrimaryExpression::Var),
    ))(i)
}
''', '''    alt((
        bracketted_or_call,
        map(iri_or_fun, PrimaryExpression::IriOrFunction),
        literal_expression,
        map(var, PrimaryExpression::Var),
    ))(i)
}

fn bracketted_or_call(i: &str) -> IResult<&str, PrimaryExpression> {
    if i.starts_with('(') {
        let (i, expr) = bracketted_expression(i)?;
        return Ok((i, PrimaryExpression::BrackettedExpression(Box::new(expr))));
    }
    let (i, call) = built_in_call(i)?;
    Ok((i, PrimaryExpression::BuiltInCall(call)))
}

fn literal_expression(i: &str) -> IResult<&str, PrimaryExpression> {
    alt((
        map(rdf_literal, PrimaryExpression::RdfLiteral),
        map(numeric_literal, PrimaryExpression::NumericLiteral),
        map(boolean, PrimaryExpression::BooleanLiteral),
    ))(i)
}
'''),
('''    map(
        separated_nonempty_list(sp_enc(tag("||")), conditional_and_expression),
        Expression,
    )(i)
}
''', '''    let (mut i, first) = conditional_and_expression(i)?;
    let mut parts = Vec::with_capacity(2);
    parts.push(first);
    loop {
        let rest = match sp_enc(tag("||"))(i) {
            Ok((rest, _)) => rest,
            Err(nom::Err::Error(_)) => break,
            Err(e) => return Err(e),
        };
        match conditional_and_expression(rest) {
            Ok((rest, part)) => {
                parts.push(part);
                i = rest;
            }
            Err(nom::Err::Error(_)) => break,
            Err(e) => return Err(e),
        }
    }
    Ok((i, Expression(parts)))
}
'''),
]), ('arithmetic.rs', [
('''    alt((
        map(preceded_tag("!", primary_expression), UnaryExpression::Not),
        map(preceded_tag("+", primary_expression), UnaryExpression::Add),
        map(preceded_tag("-", primary_expression), UnaryExpression::Sub),
        map(primary_expression, UnaryExpression::Default),
    ))(i)
}
''', '''    for (sign, make) in [
        ("!", UnaryExpression::Not as fn(PrimaryExpression) -> UnaryExpression),
        ("+", UnaryExpression::Add),
        ("-", UnaryExpression::Sub),
    ] {
        match preceded_tag(sign, primary_expression)(i) {
            Ok((rest, expr)) => return Ok((rest, make(expr))),
            Err(nom::Err::Error(_)) => continue,
            Err(e) => return Err(e),
        }
    }
    map(primary_expression, UnaryExpression::Default)(i)
}
'''),
('''    map(
        pair(additive_expression, opt(preceded(sp, op_expression))),
        |(lhs, rhs)| RelationalExpression { lhs, rhs },
    )(i)
}
''', '''    let (i, lhs) = additive_expression(i)?;
    let lhs = Box::new(lhs);
    let (i, rhs) = opt(preceded(sp, op_expression))(i)?;
    let made = RelationalExpression { lhs: *lhs, rhs };
    Ok((i, made))
}
'''),
('''    map(
        pair(
            unary_expression,
            preceded(sp, sp_list0(mult_expression)),
        ),
        |(lhs, rhs)| MultiplicativeExpression { lhs, rhs },
    )(i)
}
''', '''    let (i, lhs) = unary_expression(i)?;
    let (i, factors) = preceded(sp, sp_list0(mult_expression))(i)?;
    let mut rhs = Vec::new();
    for factor in factors {
        rhs.push(factor);
    }
    Ok((i, MultiplicativeExpression { rhs, lhs }))
}
'''),
])]
S['graphs'] = [('graph.rs', [
('''    alt((
        map(
            group_or_union_graph_pattern,
            GraphPatternNotTriples::GroupOrUnion,
        ),
        map(
            optional_group_graph_pattern,
            GraphPatternNotTriples::Optional,
        ),
        map(minus_graph_pattern, GraphPatternNotTriples::Minus),
        map(graph_graph_pattern, GraphPatternNotTriples::Graph),
        map(service_graph_pattern, GraphPatternNotTriples::Service),
        map(filter, GraphPatternNotTriples::Filter),
        map(bind, GraphPatternNotTriples::Bind),
        map(inline_data, GraphPatternNotTriples::InlineData),
    ))(i)
}
''', '''    alt((graph_pattern_of_groups, graph_pattern_of_values))(i)
}

fn graph_pattern_of_groups(i: &str) -> IResult<&str, GraphPatternNotTriples> {
    use GraphPatternNotTriples::*;
    alt((
        map(service_graph_pattern, Service),
        map(graph_graph_pattern, Graph),
        map(minus_graph_pattern, Minus),
        map(optional_group_graph_pattern, Optional),
        map(group_or_union_graph_pattern, GroupOrUnion),
    ))(i)
}

fn graph_pattern_of_values(i: &str) -> IResult<&str, GraphPatternNotTriples> {
    use GraphPatternNotTriples::*;
    alt((map(filter, Filter), map(bind, Bind), map(inline_data, InlineData)))(i)
}
'''),
('''    delimited(
        char('{'),
        sp_enc(alt((
            map(sub_select, |s| GroupGraphPattern::SubSelect(Box::new(s))),
            map(
                group_graph_pattern_sub,
                GroupGraphPattern::GroupGraphPatternSub,
            ),
        ))),
        char('}'),
    )(i)
}
''', '''    let (i, _) = char('{')(i)?;
    let (i, _) = crate::terminals::sp(i)?;
    let (i, pattern) = match sub_select(i) {
        Ok((i, s)) => (i, GroupGraphPattern::SubSelect(Box::new(s))),
        Err(nom::Err::Error(_)) => {
            let (i, sub) = group_graph_pattern_sub(i)?;
            (i, GroupGraphPattern::GroupGraphPatternSub(sub))
        }
        Err(e) => return Err(e),
    };
    let (i, _) = preceded(crate::terminals::sp, char('}'))(i)?;
    Ok((i, pattern))
}
'''),
]), ('triple.rs', [
('''    map(
        separated_nonempty_list(many1(sp_enc(char('.'))), triples_same_subject_path),
        TriplesBlock,
    )(i)
}
''', '''    let (mut i, first) = triples_same_subject_path(i)?;
    let mut block = TriplesBlock(vec![first]);
    while let (rest, Some(next)) = opt(next_triples)(i)? {
        block.0.push(next);
        i = rest;
    }
    Ok((i, block))
}

fn next_triples(i: &str) -> IResult<&str, TriplesSameSubjectPath> {
    preceded(many1(sp_enc(char('.'))), triples_same_subject_path)(i)
}
'''),
]), ('path.rs', [
('''    map(
        tuple((
            terminated(verb_path_or_simple, sp1),
            object_list_path,
            many0(preceded(many1(sp_enc(char(';'))), property_list_path_entry)),
        )),
        |(verb_path_or_simple, object_list_path, entries)| PropertyListPath {
            verb_path_or_simple,
            object_list_path,
            entries,
        },
    )(i)
}
''', '''    let (i, verb_path_or_simple) = terminated(verb_path_or_simple, sp1)(i)?;
    let (mut i, object_list_path) = object_list_path(i)?;
    let mut entries = std::collections::VecDeque::new();
    loop {
        match preceded(many1(sp_enc(char(';'))), property_list_path_entry)(i) {
            Ok((rest, entry)) => {
                entries.push_back(entry);
                i = rest;
            }
            Err(Err::Error(_)) => break,
            Err(e) => return Err(e),
        }
    }
    let made = PropertyListPath {
        verb_path_or_simple,
        object_list_path,
        entries: entries.into_iter().collect(),
    };
    Ok((i, made))
}
'''),
('''    alt((
        map(iri, PathPrimary::Iri),
        map(tag("a"), |_| PathPrimary::A),
        map(
            preceded(tag("!"), path_negated_property_set),
            PathPrimary::PathNegatedPropertySet,
        ),
        map(
            delimited(tag("("), path_alternative, tag(")")),
            PathPrimary::Path,
        ),
    ))(i)
}
''', '''    let first = i.chars().next();
    if first == Some('(') {
        let (i, path) = delimited(tag("("), path_alternative, tag(")"))(i)?;
        return Ok((i, PathPrimary::Path(path)));
    }
    if first == Some('!') {
        let (i, set) = preceded(tag("!"), path_negated_property_set)(i)?;
        return Ok((i, PathPrimary::PathNegatedPropertySet(set)));
    }
    alt((map(iri, PathPrimary::Iri), map(tag("a"), |_| PathPrimary::A)))(i)
}
'''),
])]
# one more frame, box and copy at every level
S['wrappers'] = [('expression/mod.rs', [
('''pub(crate) fn primary_expression(i: &str) -> IResult<&str, PrimaryExpression> {
    alt((
''', '''pub(crate) fn primary_expression(i: &str) -> IResult<&str, PrimaryExpression> {
    let (rest, boxed) = primary_expression_boxed(i)?;
    Ok((rest, *boxed))
}

fn primary_expression_boxed(i: &str) -> IResult<&str, Box<PrimaryExpression>> {
    map(primary_expression_inner, Box::new)(i)
}

fn primary_expression_inner(i: &str) -> IResult<&str, PrimaryExpression> {
    alt((
'''),
]), ('graph.rs', [
('''pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
''', '''pub(crate) fn group_graph_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
    let parsed = braced_pattern(i);
    match parsed {
        Ok((rest, pattern)) => Ok((rest, pattern)),
        Err(e) => Err(e),
    }
}

fn braced_pattern(i: &str) -> IResult<&str, GroupGraphPattern> {
'''),
]), ('terminals.rs', [
('''pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
    alt((
        map(iri_ref, |i| Iri::Iri(i.to_string())),
''', '''pub(crate) fn iri(i: &str) -> IResult<&str, Iri> {
    alt((
        map(iri_ref, |i| {
            let mut owned = String::new();
            for c in i.chars() {
                owned.push(c);
            }
            owned.shrink_to_fit();
            Iri::Iri(owned)
        }),
'''),
]), ('parser.rs', [])]
if __name__ == '__main__':
    os.makedirs('/tmp/same', exist_ok=True)
    for id in ARGS or S:
        seed.prep()
        for f, edits in S[id]:
            p = f'{seed.W}/src/{f}'
            s = open(p, newline='').read()
            for a, b in edits:
                a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
                if s.count(a) != 1:
                    print(id, f, s.count(a), 'times:', a[:80]); sys.exit(1)
                s = s.replace(a, b)
            open(p, 'w', newline='').write(s)
        rc, o = seed.build()
        if rc:
            print(id, 'does not build', o[-3000:]); continue
        t = seed.tests()
        open(f'/tmp/same/{id}.diff', 'w').write(subprocess.run(['git', 'diff'], cwd=seed.W, stdout=subprocess.PIPE).stdout.decode())
        print(id, 'ok', str(t)[:100])
