"""P04 child order / required children, P16 attribute names, required attributes and enumerated values (OOXML content models)."""
import schema
IDS = ["P04", "P16"]
RULES = {"P04": ("child-order", "child-unknown", "child-missing"), "P16": ("attr-missing", "attr-value", "attr-unknown")}


def run(c):
    dom, fdom, eng, feng, roots, nfrag = c.xml_analysis(dom_class=schema.SchemaDomain)
    doms = [dom, fdom]
    for d in doms:
        for v in d.viol.values():
            if v["rule"] == "child-missing" and any("<%s>" % k in v["detail"] for k in getattr(d, "computed", ())):
                c.undec("%s: children of it have computed names" % v["detail"])
                continue
            if v["rule"] in RULES[c.id]:
                c.violate("%s|%s" % (v["rule"], v["detail"]), v["detail"], "%s:%s in %s" % (v["file"], v["line"], v["fn"]), v["path"])

    def names(kind):
        return {x[2] for d in doms for x in d.obl.get(kind, ())}

    def cnt(kind):
        return sum(len(d.obl.get(kind, ())) for d in doms)
    emitted = {x.split("@")[0] for x in names("element")}
    c.floor("package_parts_analysed", len(roots), 35)
    c.coverage["fragment_producers_analysed"] = nfrag
    c.coverage["abstract_steps"] = eng.steps + feng.steps
    c.coverage["element_definitions_in_the_schema_table"] = len(schema.SCHEMA.els)
    known = {k.split("/")[0] for k in schema.SCHEMA.els}
    c.coverage["emitted_elements_without_a_definition"] = sorted(e for e in emitted if e not in known and "{" not in e)
    if c.id == "P04":
        c.floor("child_positions_checked", cnt("child"), 700)
        c.floor("element_ends_checked", cnt("closed"), 600)
        c.coverage["rule"] = "children appear in the order and number of the content model; required single children are present on every path"
    else:
        c.floor("values_checked", cnt("value"), 700)
        c.floor("required_attributes_checked", cnt("required-attr"), 400)
        c.coverage["values_not_decidable"] = sorted(names("value-undecided"))[:40]
        c.coverage["rule"] = "attributes are defined for their element, required ones present on every path, constant values in the value set of their type"
    c.explanation = ("abstract interpretation of every string-building path (MIR) with an XML lexer that walks ECMA-376 content models "
                     "(lib/ooxml_schema.txt) for each open element")
    c.assumptions += ["lib/ooxml_schema.txt transcribes ECMA-376 for the elements it lists; other elements are not judged",
                      "operations listed as undecided are not judged"]
