"""P17 fixed vocabularies: enums are written as the token that names them, tokens are read back as the value that writes them."""
import re
import linear
from linear import alts, fieldof, show
IDS = ["P17"]

OFF = "http://schemas.openxmlformats.org/officeDocument/2006/relationships/"
PML = "application/vnd.openxmlformats-officedocument.presentationml."
MIME = {"png": "image/png", "jpg": "image/jpeg", "jpeg": "image/jpeg", "gif": "image/gif", "bmp": "image/bmp", "tif": "image/tiff", "tiff": "image/tiff",
        "svg": "image/svg+xml", "webp": "image/webp", "emf": "image/x-emf", "wmf": "image/x-wmf",
        "mp4": "video/mp4", "webm": "video/webm", "avi": "video/x-msvideo", "wmv": "video/x-ms-wmv", "mov": "video/quicktime", "mkv": "video/x-matroska", "m4v": "video/x-m4v",
        "mp3": "audio/mpeg", "wav": "audio/wav", "wma": "audio/x-ms-wma", "m4a": "audio/mp4", "ogg": "audio/ogg", "flac": "audio/flac", "aac": "audio/aac"}
OTHER_MIME = {"mp4": {"audio/mp4"}, "m4v": {"video/mp4"}, "wav": {"audio/x-wav"}, "bmp": {"image/x-bmp"}, "emf": {"image/emf"}, "wmf": {"image/wmf"}}
ALIGN = {"Left": "l", "Center": "ctr", "Right": "r", "Justify": "just"}
VALIGN = {"Top": "t", "Middle": "ctr", "Bottom": "b"}
BULLET = {"Bullet": '<a:buChar char="•"/>', "Number": '<a:buAutoNum type="arabicPeriod"/>', "LetterLower": '<a:buAutoNum type="alphaLcPeriod"/>',
          "LetterUpper": '<a:buAutoNum type="alphaUcPeriod"/>', "RomanLower": '<a:buAutoNum type="romanLcPeriod"/>', "RomanUpper": '<a:buAutoNum type="romanUcPeriod"/>',
          "None": "<a:buNone/>"}
TRANSITION = {"Fade": "p:fade", "Push": "p:push", "Wipe": "p:wipe", "Split": "p:split", "Reveal": ":reveal", "Cover": "p:cover", "Zoom": "p:zoom"}
JUMP = {"FirstSlide": "firstslide", "LastSlide": "lastslide", "NextSlide": "nextslide", "PreviousSlide": "previousslide", "EndShow": "endshow"}
# Type::function -> {variant: token of ECMA-376 (or of the registry concerned)}; "*x" means the text contains x, before any other variant's token
ENUMS = {
    "SchemeColor::as_str": {"Accent%d" % i: "accent%d" % i for i in range(1, 7)} | {
        "Dark1": "dk1", "Dark2": "dk2", "Light1": "lt1", "Light2": "lt2", "Hyperlink": "hlink", "FollowedHyperlink": "folHlink",
        "Background1": "bg1", "Background2": "bg2", "Text1": "tx1", "Text2": "tx2"},
    "ImageFormat::extension": {"Png": "png", "Jpeg": ("jpg", "jpeg")}, "ImageFormat::mime_type": {"Png": "image/png", "Jpeg": "image/jpeg"},
    "ChartType::bar_direction": {"Bar": "col", "BarHorizontal": "bar", "BarStacked": "col", "BarStacked100": "col"},
    "ChartType::grouping": {"Bar": "clustered", "BarHorizontal": "clustered", "BarStacked": "stacked", "BarStacked100": "percentStacked", "Line": "standard",
                            "LineMarkers": "standard", "LineStacked": "stacked", "Area": "standard", "AreaStacked": "stacked", "AreaStacked100": "percentStacked"},
    "ChartType::radar_style": {"Radar": ("marker", "standard"), "RadarFilled": "filled"},
    "ChartType::scatter_style": {"Scatter": ("marker", "lineMarker"), "ScatterLines": ("lineMarker", "line"), "ScatterSmooth": ("smoothMarker", "smooth")},
    "ChartType::xml_element": {"Bar": "c:barChart", "BarHorizontal": "c:barChart", "BarStacked": "c:barChart", "BarStacked100": "c:barChart", "Line": "c:lineChart",
                               "LineMarkers": "c:lineChart", "LineStacked": "c:lineChart", "Pie": "c:pieChart", "Doughnut": "c:doughnutChart", "Area": "c:areaChart",
                               "AreaStacked": "c:areaChart", "AreaStacked100": "c:areaChart", "Scatter": "c:scatterChart", "ScatterLines": "c:scatterChart",
                               "ScatterSmooth": "c:scatterChart", "Bubble": "c:bubbleChart", "Radar": "c:radarChart", "RadarFilled": "c:radarChart",
                               "StockHLC": "c:stockChart", "StockOHLC": "c:stockChart"},
    "ArrowSize::xml_value": {"Small": "sm", "Medium": "med", "Large": "lg"},
    "ArrowType::xml_value": {"None": "none", "Triangle": "triangle", "Stealth": "stealth", "Diamond": "diamond", "Oval": "oval", "Open": "arrow"},
    "ConnectorType::preset_name": {"Straight": ("straightConnector1", "line"), "Elbow": "bentConnector3", "Curved": "curvedConnector3"},
    "LineDash::xml_value": {"Solid": "solid", "Dash": "dash", "Dot": "dot", "DashDot": "dashDot", "DashDotDot": ("lgDashDotDot", "sysDashDotDot"),
                            "LongDash": "lgDash", "LongDashDot": "lgDashDot"},
    "HyperlinkAction::action_type": {k: "*jump=" + v for k, v in JUMP.items()} | {"Slide": "ppaction://hlinksldjump"},
    "HyperlinkAction::relationship_target": {k: "*jump=" + v for k, v in JUMP.items()},
    "BulletStyle::to_xml": BULLET, "TransitionType::to_xml": {k: "*" + v for k, v in TRANSITION.items()},
    "HashAlgorithm::name": {"Sha256": "SHA-256", "Sha384": "SHA-384", "Sha512": "SHA-512", "Sha1": "SHA-1"},
    "HashAlgorithm::uri": {"Sha256": "http://www.w3.org/2001/04/xmlenc#sha256", "Sha384": "http://www.w3.org/2001/04/xmldsig-more#sha384",
                           "Sha512": "http://www.w3.org/2001/04/xmlenc#sha512", "Sha1": "http://www.w3.org/2000/09/xmldsig#sha1"},
    "FontStyle::xml_element": {"Regular": "regular", "Bold": "bold", "Italic": "italic", "BoldItalic": "boldItalic"},
    "Orientation::to_xml_value": {"Landscape": "landscape", "Portrait": "portrait"},
    "PrintColorMode::to_xml_value": {"Color": "clr", "Grayscale": "gray", "BlackAndWhite": "bw"},
    "ShowType::to_xml_element": {"Speaker": "*p:present", "Kiosk": "*p:kiosk", "Browsed": "*p:browse"},
    "CellAlign::as_str": ALIGN, "TextAlign::to_xml": ALIGN, "HorizontalAlign::as_str": ALIGN,
    "CellVAlign::as_str": VALIGN, "TextAnchor::to_xml": VALIGN, "VerticalAlign::as_str": VALIGN,
    "BorderStyle::as_str": {"Solid": "solid", "Dashed": "dash", "Dotted": "dot", "Double": "dbl", "None": "none"},
    "CellMergeState::to_xml_attrs": {"HMerge": "*hMerge=\"1\"", "VMerge": "*vMerge=\"1\""},
    "TextDirection::to_xml_attr": {"LTR": "0", "RTL": "1"},
    "RtlLanguage::lang_tag": {"Arabic": "*ar-", "Hebrew": "*he-", "Urdu": "*ur-", "Persian": "*fa-", "Pashto": "*ps-", "Sindhi": "*sd-", "Kurdish": "*ku-", "Yiddish": "*yi-"},
    "ContentType::mime_type": {"Presentation": PML + "presentation.main+xml", "Slide": PML + "slide+xml", "SlideLayout": PML + "slideLayout+xml",
                               "SlideMaster": PML + "slideMaster+xml", "Theme": "application/vnd.openxmlformats-officedocument.theme+xml",
                               "NotesSlide": PML + "notesSlide+xml", "NotesMaster": PML + "notesMaster+xml",
                               "Chart": "application/vnd.openxmlformats-officedocument.drawingml.chart+xml",
                               "CoreProperties": "application/vnd.openxmlformats-package.core-properties+xml",
                               "ExtendedProperties": "application/vnd.openxmlformats-officedocument.extended-properties+xml",
                               "Relationships": "application/vnd.openxmlformats-package.relationships+xml", "Xml": "application/xml"},
    "PartType::relationship_type": {"Presentation": OFF + "officeDocument", "Slide": OFF + "slide", "SlideLayout": OFF + "slideLayout", "SlideMaster": OFF + "slideMaster",
                                    "Theme": OFF + "theme", "NotesSlide": OFF + "notesSlide", "NotesMaster": OFF + "notesMaster", "Image": OFF + "image",
                                    "Chart": OFF + "chart", "ExtendedProperties": OFF + "extended-properties",
                                    "CoreProperties": "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties"},
    "RelationshipType::uri": {"OfficeDocument": OFF + "officeDocument", "Slide": OFF + "slide", "SlideLayout": OFF + "slideLayout", "SlideMaster": OFF + "slideMaster",
                              "Theme": OFF + "theme", "Image": OFF + "image", "Chart": OFF + "chart", "ExtendedProperties": OFF + "extended-properties",
                              "CoreProperties": "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties"},
    "LayoutType::type_value": {"Title": "title", "TitleAndContent": "obj", "SectionHeader": "secHead", "TwoContent": "twoObj", "Comparison": "twoTxTwoObj",
                               "TitleOnly": "titleOnly", "Blank": "blank", "ContentWithCaption": "objTx", "PictureWithCaption": "picTx", "TitleAndVerticalText": "vertTx",
                               "VerticalTitleAndText": "vertTitleAndTx", "Custom": "cust"},
}
# presets not called like their ST_ShapeType token
PRESETS = {"Rectangle": "rect", "RoundedRectangle": "roundRect", "Circle": "ellipse", "RightTriangle": "rtTriangle", "Ribbon": ("ribbon", "ribbon2"),
           "FlowChartData": "flowChartInputOutput", "CurvedLeftRightArrow": "leftRightCircularArrow", "CurvedUpDownArrow": "upDownArrow", "PentagonArrow": "homePlate",
           "ChevronArrow": "chevron", "IsoscelesTrapezoid": "trapezoid", "Cone": "triangle", "Cylinder": "can", "MusicNote": "actionButtonSound", "PictureFrame": "frame",
           "Seal": "irregularSeal1", "Seal4": "star4", "Seal8": "star8", "Seal16": "star16", "Seal32": "star32", "Lightning": "lightningBolt", "Brace": "leftBrace",
           "Bracket": "leftBracket", "Plus": ("mathPlus", "plus"), "Minus": "mathMinus"}
CSS = dict(red="FF0000", blue="0000FF", green="008000", yellow="FFFF00", white="FFFFFF", black="000000", gray="808080", grey="808080", silver="C0C0C0", maroon="800000",
           purple="800080", fuchsia="FF00FF", lime="00FF00", olive="808000", navy="000080", teal="008080", aqua="00FFFF", orange="FFA500", pink="FFC0CB", coral="FF7F50",
           tomato="FF6347", darkred="8B0000", darkblue="00008B", darkgreen="006400", darkgray="A9A9A9", darkgrey="A9A9A9", lightgray="D3D3D3", lightgrey="D3D3D3",
           darkorange="FF8C00", brown="A52A2A", crimson="DC143C", gold="FFD700", goldenrod="DAA520", indigo="4B0082", salmon="FA8072", chocolate="D2691E",
           steelblue="4682B4", violet="EE82EE", orchid="DA70D6", plum="DDA0DD", wheat="F5DEB3", deeppink="FF1493", hotpink="FF69B4", royalblue="4169E1",
           skyblue="87CEEB", seagreen="2E8B57", forestgreen="228B22", cyan="00FFFF", magenta="FF00FF", darkcyan="008B8B", darkmagenta="8B008B", lightblue="ADD8E6",
           lightgreen="90EE90", slategray="708090", tan="D2B48C", turquoise="40E0D0", khaki="F0E68C", lavender="E6E6FA", beige="F5F5DC", ivory="FFFFF0",
           midnightblue="191970", dodgerblue="1E90FF", limegreen="32CD32", firebrick="B22222", sienna="A0522D", peru="CD853F", lightyellow="FFFFE0")
NONSENSE = "zz-no-such-token"


def text(v):
    """the one string a value is, None for absent, False if unknown"""
    while v[0] == "adt" and v[2] in ("Some", "Ok"):
        v = fieldof(v, "0")
    if v[0] == "adt" and v[2] == "None":
        return None
    return v[1] if v[0] == "str" else False


class Check:
    def __init__(self, c):
        self.c, self.P, self.L = c, c.P, linear.Linear(c.P)
        self.enums = self.keys = 0
        self.tables = set()
        self.written = {}

    def enum_of(self, b):
        t = b.lty(1)
        while t["k"] == "ref":
            t = b.ty(t["a"][0])
        if t["k"] != "adt":
            return None, None
        d = self.P.resolve_id(b.crate, t["d"])
        a = self.P.adts["ppt_rs"].get(d)
        return (d, a) if a and len(a["v"]) > 1 else (None, None)

    def of_variant(self, b, d, var, payload=None):
        r, _ = self.L.run(b, [("adt", d, var["n"], None, tuple((str(i), payload or ("sym", "v%d" % i)) for i, _ in enumerate(var["f"])))])
        return r

    def writers(self, b, short):
        d, a = self.enum_of(b)
        table = ENUMS.get(short)
        if d is None or table is None and not short.endswith("::preset_name"):
            return
        got = {v["n"]: text(self.of_variant(b, d, v)) for v in a["v"]}
        if short == "ShapeType::preset_name":
            self.written = got
            table = {n: PRESETS.get(n, n[0].lower() + n[1:]) for n in got}
        if table is None:
            return
        if any(isinstance(x, str) for x in got.values()):
            self.tables.add(short)
        tokens = {x.lstrip("*") for t in table.values() for x in (t if isinstance(t, tuple) else (t,))}
        for n, want in sorted(table.items()):
            if n not in got:
                continue
            g = got[n]
            if g is False:
                self.c.undec("%s of %s" % (short, n))
                continue
            self.enums += 1
            want = want if isinstance(want, tuple) else (want,)
            ok = g is not None and any(w[1:] in g and all(g.find(w[1:]) <= g.find(x) for x in tokens if x in g and x != w[1:]) if w.startswith("*") else g == w for w in want)
            if not ok and not (short == "ShapeType::preset_name" and g and g.lower() == n.lower()):
                self.c.violate("token|%s|%s" % (short, n), "%s of %s is %r, not %s" % (short, n, g, " or ".join(repr(w) for w in want)), b.where())

    def media(self, b, short):
        """formats named after their extension: extension, type, and back"""
        d, a = self.enum_of(b)
        if d is None or not d.split("::")[-1] in ("VideoFormat", "AudioFormat", "MediaFormat"):
            return
        last = short.split("::")[-1]
        if last not in ("extension", "mime_type"):
            return
        self.tables.add(short)
        for v in a["v"]:
            g = text(self.of_variant(b, d, v))
            if g is False:
                self.c.undec("%s of %s" % (short, v["n"]))
                continue
            self.enums += 1
            e = v["n"].lower()
            if last == "extension" and g != e or last == "mime_type" and e in MIME and g != MIME[e] and g not in OTHER_MIME.get(e, ()):
                self.c.violate("media|%s|%s" % (short, v["n"]), "%s of %s is %r" % (short, v["n"], g), b.where())

    def payload_types(self, b, short):
        """ContentType::mime_type of an image or medium of a named format"""
        d, a = self.enum_of(b)
        if d is None or short != "ContentType::mime_type":
            return
        for v in a["v"]:
            if v["n"] in ("Image", "Media"):
                self.keyed(b, short + " of " + v["n"], lambda s: self.of_variant(b, d, v, s), MIME, {})

    def keyed(self, b, name, f, table, also):
        """a function of a string: every key it knows yields what the table says"""
        default = f(("str", NONSENSE))
        known = 0
        for key, want in sorted(table.items()):
            r = f(("str", key))
            if r == default:
                continue
            g = text(r)
            if g is False:
                self.c.undec("%s of %r: %s" % (name, key, show(r)[:60]))
                continue
            known += 1
            self.keys += 1
            if g != want and g not in OTHER_MIME.get(key, ()):
                self.c.violate("key|%s|%s" % (name, key), "%s turns %r into %r, not %r" % (name, key, g, want), b.where())
        if known:
            self.tables.add(name)

    def readers(self, b, short):
        if b.argc != 1:
            return
        t = b.lty(1)
        while t["k"] == "ref":
            t = b.ty(t["a"][0])
        one = lambda s: self.L.run(b, [s])[0]
        last = short.split("::")[-1]
        if t["s"] in ("str", "alloc::string::String", "std::string::String"):
            if last == "css_named_color":
                self.keyed(b, short, one, CSS, {})
            elif re.search(r"(mime|content)_type$", last):
                self.keyed(b, short, one, MIME, {})
            elif last == "from_extension":
                for e in sorted(MIME):
                    r = one(("str", e))
                    while r[0] == "adt" and r[2] == "Some":
                        r = fieldof(r, "0")
                    if r[0] != "adt" or r[2] == "None":
                        continue
                    self.keys += 1
                    self.tables.add(short)
                    if r[2].lower() != e:
                        self.c.violate("key|%s|%s" % (short, e), "%s reads the extension %r as %s" % (short, e, r[2]), b.where())
        elif t["k"] == "adt" and last == "mime_type":
            a = self.P.adts["ppt_rs"].get(self.P.resolve_id(b.crate, t["d"]))
            if a and len(a["v"]) == 1 and any(f[0] == "format" for f in a["v"][0]["f"]):
                d = self.P.resolve_id(b.crate, t["d"])
                up = "generator::images" in d
                self.keyed(b, short, lambda s: one(("adt", d, a["v"][0]["n"], None, (("format", ("str", s[1].upper() if up else s[1])),))), MIME, {})

    def shapes(self, b):
        """preset token read as a shape type that is written as that token"""
        if b.lty(0)["s"].split("::")[-1] != "ShapeType" or b.argc != 1:
            return
        t = b.lty(1)["s"]
        if "str" not in t.lower() or not self.written:
            return
        opt = "Option" in t
        arg = lambda s: ("adt", "core::option::Option", "Some", None, (("0", ("str", s)),)) if opt else ("str", s)
        run = lambda s: self.L.run(b, [arg(s)])[0]
        default = run(NONSENSE)
        n = 0
        for tok in sorted({x for x in self.written.values() if x}):
            r = run(tok)
            if r == default:
                continue
            if r[0] != "adt" or r[2] not in self.written:
                self.c.undec("%s of %r: %s" % (b.id.split("::")[-1], tok, show(r)[:60]))
                continue
            n += 1
            self.keys += 1
            if self.written[r[2]] != tok:
                self.c.violate("shape|%s|%s" % (b.id.split("::")[-1], tok), "%s reads the preset %r as %s, which is written as %r" %
                               (b.id.split("::")[-1], tok, r[2], self.written[r[2]]), b.where())
        if n:
            self.tables.add(b.id.split("::")[-1])


def run(c):
    K = Check(c)
    bs = [b for b in sorted(c.P.bodies.values(), key=lambda b: b.id) if b.crate == "ppt_rs" and not b.derived and "::tests" not in b.id and "{closure" not in b.id and b.argc]
    for b in bs:
        short = re.sub(r"<.*?::(\w+) as .*>", r"\1", b.id)
        short = "::".join(short.split("::")[-2:])
        K.writers(b, short)
        K.media(b, short)
        K.payload_types(b, short)
        K.readers(b, short)
    for b in bs:
        K.shapes(b)
    c.coverage["tables"] = sorted(K.tables)
    c.floor("tokens_checked", K.enums, 150)
    c.floor("keys_checked", K.keys, 40)
    c.coverage["rule"] = "each function from an enum to a token, and from a token to a value, evaluated by conditional constant propagation per variant or key, yields the entry of the vocabulary table"
    c.explanation = "conditional constant propagation on MIR, one run per enum variant or vocabulary key; the tables are transcribed from ECMA-376, the CSS colour names and the media type registry"
    c.assumptions += ["functions on tokens that are not in the checker's tables are not judged"]
