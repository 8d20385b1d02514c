"""P01 escaping, P02 well-formedness, P03 namespace prefixes: the XML lexer domain over every emission path."""
IDS = ["P01", "P02", "P03"]
RULES = {"P01": ("unescaped",), "P02": ("malformed", "unbalanced", "duplicate-attribute"), "P03": ("undeclared-prefix",)}


def run(c):
    dom, fdom, eng, feng, roots, nfrag = c.xml_analysis(fragments=c.id != "P03")
    doms = [dom] if c.id == "P03" else [dom, fdom]
    n_pass = 0
    for d in doms:
        for v in d.viol.values():
            if v["rule"] not in RULES[c.id]:
                continue
            if v["file"].endswith(("oxml/repair.rs", "opc/compress.rs")):
                # existing documents edited as text: their markup is not produced here
                n_pass += 1
                continue
            if v["rule"] == "unescaped":
                us = c.user_sources(v["v"])
                if not us:
                    n_pass += 1
                    continue
                key = "%s|%s|%s" % (v["rule"], v["sink"], c.field_key(v["v"]))
            else:
                key = "%s|%s|%s" % (v["rule"], v["fn"].split("::")[-1] if "{closure" not in v["fn"] else v["fn"].split("::")[-2], v["detail"])
            c.violate(key, v["detail"], "%s:%s in %s" % (v["file"], v["line"], v["fn"]), v["path"])

    def cnt(kind):
        return sum(len(d.obl.get(kind, ())) for d in doms)
    c.floor("package_parts_analysed", len(roots), 35)
    c.coverage["fragment_producers_analysed"] = nfrag
    c.coverage["functions_visited"] = len(set(eng.visited) | set(feng.visited))
    c.coverage["abstract_steps"] = eng.steps + feng.steps
    if c.id == "P01":
        c.floor("text_insertions_checked", cnt("text-hole"), 40)
        c.floor("attribute_insertions_checked", cnt("attr-hole"), 150)
        c.coverage["insertions_of_existing_part_bytes_skipped"] = n_pass
        c.coverage["rule"] = "no string that can carry & < > or the delimiting quote reaches markup text or an attribute value unescaped"
    elif c.id == "P02":
        c.floor("element_emissions_checked", cnt("element"), 800)
        c.floor("attribute_emissions_checked", cnt("attribute"), 900)
        c.coverage["rule"] = "every path through a document writer leaves balanced, lexically valid markup with no repeated attribute"
    else:
        c.floor("prefixed_names_checked", len(dom.obl.get("prefix", ())), 250)
        c.coverage["rule"] = "every prefix used by an element or attribute is declared by an enclosing element of the same part"
    c.explanation = ("abstract interpretation of every string-building path (MIR, resolved callees) with an XML lexer as the text domain; "
                     "roots are every write into a package entry and every public XML-returning function")
    c.assumptions += ["std formatting and string methods behave as documented", "operations listed as undecided are not judged"]
