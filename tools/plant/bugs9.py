exec("".join(open(__file__.replace("bugs9", "bugs8")).readlines()[:2]))
H = '''
def book(led, **kw):
    return ask({"main.bean": led}, ("book",), **kw)[0]
OPEN = "2020-01-01 open Assets:A\\n2020-01-01 open Assets:B\\n2020-01-01 open Equity:E\\n"
'''
BUGS = [
 dict(id="C15-newline", property="C15", needs="a failing assertion after a transaction whose text goes over two lines",
  breaks="only the first of them is shown",
  edits=[(ACC, ".map(|d| (d, Align::Left).into())", ".and_then(|d| d.lines().next())\n                                .map(|d| (d, Align::Left).into())")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "one\\ntwo"\\n  Assets:A  1 USD\\n  Equity:E\\n2020-01-03 balance Assets:A 5 USD\\n')
check("two" in a["error"]["data"][0]["annotation"], a)
'''),
 dict(id="C15-pad-rows", property="C15", needs="an assertion on a parent account which fails after a pad of a sub-account",
  breaks="what the pad moved is not among the postings",
  edits=[(ACC, "            if let booked::DirectiveVariant::Transaction(txn) = &dct.variant {\n                for pst", "            if let booked::DirectiveVariant::Transaction(txn) = &dct.variant\n                && txn.flag != PAD_FLAG\n            {\n                for pst")],
  demo=H + '''
a = book(OPEN + '2020-01-01 open Assets:A:S\\n2020-01-02 pad Assets:A:S Equity:E\\n2020-01-03 balance Assets:A:S 7 USD\\n2020-01-04 balance Assets:A 9 USD\\n')
check("accumulated 7" in a["error"]["data"][0]["reason"], a)
'''),
 dict(id="C15-zero-tolerance", property="C15", needs="an assertion with a tolerance of zero written with it",
  breaks="the tolerance of its precision is used instead",
  edits=[(ACC, "balance.tolerance.unwrap_or_else(", "balance.tolerance.filter(|t| !t.is_zero()).unwrap_or_else(")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:A  1.00 USD\\n  Equity:E\\n2020-01-03 balance Assets:A 1.01 ~ 0 USD\\n')
check("error" in a, a)
'''),
 dict(id="C14-emptied", property="C14", needs="a sale of all that an account holds, and another one",
  breaks="what was sold is still there",
  edits=[(ACC, "                    account.positions = updated_positions;\n", "                    // nothing to remember\n                    if updated_positions.iter().next().is_some() {\n                        account.positions = updated_positions;\n                    }\n")],
  demo=H + '''
t = '2020-01-0%d * "x"\\n  Assets:A  %s X {1 USD}\\n  Equity:E\\n'
a = book(OPEN + t % (2, 5) + t % (3, -5) + '2020-01-04 balance Assets:A 0 X\\n')
check("result" in a, a)
'''),
 dict(id="C13-cost-links", property="C13", needs="a posting with a link which is held at cost",
  breaks="the link is lost",
  edits=[(ACC, """                                    price: None,
                                    tags: posting.tags.clone(),
                                    links: posting.links.clone(),
""", """                                    price: None,
                                    tags: posting.tags.clone(),
                                    links: None,
""")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:A  5 X {1 USD}\\n    ^li\\n  Equity:E\\n')
check("li" in str(a["result"]["directives"][-1]["postings"][0]), a)
'''),
 dict(id="C13-zero-units", property="C13", needs="a posting of zero units with a price",
  breaks="the price is lost",
  edits=[(ACC, "price: price.map(|price| (&price).into()),", "price: price\n                                    .filter(|_| !units.is_zero())\n                                    .map(|price| (&price).into()),")],
  demo=H + '''
a = book(OPEN + '2020-01-02 * "x"\\n  Assets:A  0 X @ 3 USD\\n  Assets:B  1 USD\\n  Equity:E  -1 USD\\n')
check("price" in a["result"]["directives"][-1]["postings"][0], a)
'''),
 dict(id="C10-spans", property="C10", needs="directives sent back with their locations which cannot be booked",
  breaks="they are reported by location",
  edits=[(SRV, "(Some(param_directives), _) => (param_directives, false),", "(Some(param_directives), _) => (\n                            param_directives,\n                            !param_directives.is_empty()\n                                && param_directives.iter().all(|d| d.span.is_some()),\n                        ),")],
  demo=H + '''
d = {"span": [0, 0, 24], "date": "2020-01-01", "dct": "close", "acc": "Assets:A"}
a = ask({"main.bean": OPEN}, ("book", [d]))[0]
check(a["error"]["code"] == 3, a)
'''),
]
# further changes of this batch are kept as seeded/<id>/patch.diff alone
