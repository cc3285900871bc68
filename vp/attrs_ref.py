"""Graphviz attributes as its documentation lists them (https://graphviz.org/doc/info/attrs.html):
name -> the kinds that carry it (G graph, C cluster / subgraph, N node, E edge)"""
CARRIERS = {}
for line in """
_background G|area NC|arrowhead E|arrowsize E|arrowtail E|bb GC|beautify G|bgcolor GC|center G|charset G|class ENCG|cluster C|clusterrank G|color ENC
colorscheme ENCG|comment ENG|compound G|concentrate G|constraint E|Damping G|decorate E|defaultdist G|dim G|dimen G|dir E|diredgeconstraints G
distortion N|dpi G|edgehref E|edgetarget E|edgetooltip E|edgeURL E|epsilon G|esep G|fillcolor NEC|fixedsize N|fontcolor ENGC|fontname ENGC
fontnames G|fontpath G|fontsize ENGC|forcelabels G|gradientangle NCG|group N|head_lp E|headclip E|headhref E|headlabel E|headport E|headtarget E
headtooltip E|headURL E|height N|href GCNE|id GCNE|image N|imagepath G|imagepos N|imagescale N|inputscale G|K GC|label ENGC|label_scheme G
labelangle E|labeldistance E|labelfloat E|labelfontcolor E|labelfontname E|labelfontsize E|labelhref E|labeljust GC|labelloc NGC|labeltarget E
labeltooltip E|labelURL E|landscape G|layer ENC|layerlistsep G|layers G|layerselect G|layersep G|layout G|len E|levels G|levelsgap G|lhead E
lheight GC|linelength G|lp EGC|ltail E|lwidth GC|margin NCG|maxiter G|mclimit G|mindist G|minlen E|mode G|model G|mosek G|newrank G|nodesep G
nojustify GCNE|normalize G|notranslate G|nslimit G|nslimit1 G|oneblock G|ordering GN|orientation NG|outputorder G|overlap G|overlap_scaling G
overlap_shrink G|pack G|packmode G|pad G|page G|pagedir G|pencolor C|penwidth CNE|peripheries NC|pin N|pos EN|quadtree G|quantum G|radius E|rank C
rankdir G|ranksep G|ratio G|rects N|regular N|remincross G|repulsiveforce G|resolution G|root GN|rotate G|rotation G|samehead E|sametail E
samplepoints N|scale G|searchsize G|sep G|shape N|shapefile N|showboxes ENG|sides N|size G|skew N|smoothing G|sortv GCN|splines G|start G
style ENCG|stylesheet G|tail_lp E|tailclip E|tailhref E|taillabel E|tailport E|tailtarget E|tailtooltip E|tailURL E|target ENGC|TBbalance G
tooltip NECG|truecolor G|URL ENGC|vertices N|viewport G|voro_margin G|weight E|width N|xdotversion G|xlabel EN|xlp NE|z N
""".split("\n"):
    for e in line.split("|"):
        if e.strip():
            n, k = e.split()
            CARRIERS[n] = k

ARROWS = """normal dot odot none empty diamond ediamond odiamond box open vee halfopen obox crow invempty tee invodot invdot inv
curve icurve lcrow rcrow lbox rbox olbox orbox lvee rvee ltee rtee linv rinv oinv olinv orinv lnormal rnormal onormal olnormal ornormal
ldiamond rdiamond oldiamond ordiamond lcurve rcurve licurve ricurve""".split()

NUM = """antiquewhite aquamarine azure bisque blue brown burlywood cadetblue chartreuse chocolate coral cornsilk cyan darkgoldenrod darkolivegreen
darkorange darkorchid darkseagreen darkslategray deeppink deepskyblue dodgerblue firebrick gold goldenrod green honeydew hotpink indianred ivory khaki
lavenderblush lemonchiffon lightblue lightcyan lightgoldenrod lightpink lightsalmon lightskyblue lightsteelblue lightyellow magenta maroon mediumorchid
mediumpurple mistyrose navajowhite olivedrab orange orangered orchid palegreen paleturquoise palevioletred peachpuff pink plum purple red rosybrown
royalblue salmon seagreen seashell sienna skyblue slateblue slategray snow springgreen steelblue tan thistle tomato turquoise violetred wheat yellow""".split()
COLORS = set("""aliceblue aqua beige black blanchedalmond blueviolet cornflowerblue crimson darkblue darkcyan darkgray darkgreen darkgrey darkkhaki
darkmagenta darkred darksalmon darkslateblue darkslategrey darkturquoise darkviolet dimgray dimgrey floralwhite forestgreen fuchsia gainsboro ghostwhite
gray greenyellow grey indigo invis lavender lawngreen lightcoral lightgoldenrodyellow lightgray lightgreen lightgrey lightseagreen lightslateblue
lightslategray lightslategrey lime limegreen linen mediumaquamarine mediumblue mediumseagreen mediumslateblue mediumspringgreen mediumturquoise
mediumvioletred midnightblue mintcream moccasin navy navyblue none oldlace olive palegoldenrod papayawhip peru powderblue rebeccapurple saddlebrown
sandybrown silver slategrey teal transparent violet webgray webgreen webgrey webmaroon webpurple white whitesmoke x11gray x11green x11grey x11maroon
x11purple yellowgreen""".split()) | set(NUM) | {b + str(i) for b in NUM for i in range(1, 5)} | {g + str(i) for g in ("gray", "grey") for i in range(101)}

# the words an attribute or type of the library may have
WORDS = {
    "arrowhead": set(ARROWS), "arrowtail": set(ARROWS),
    "clusterrank": {"local", "global", "none"}, "dir": {"forward", "back", "both", "none"},
    "outputorder": {"breadthfirst", "nodesfirst", "edgesfirst"}, "packmode": {"node", "clust", "cluster", "graph", "array"},
    "pagedir": {"BL", "BR", "TL", "TR", "RB", "RT", "LB", "LT"}, "quadtree": {"normal", "fast", "none"},
    "rank": {"same", "min", "source", "max", "sink"}, "rankdir": {"TB", "BT", "LR", "RL"},
    "smoothing": {"none", "avg_dist", "graph_dist", "power_dist", "rng", "spring", "triangle"},
    "shape": set("""box polygon ellipse oval circle point egg triangle plaintext plain diamond trapezium parallelogram house pentagon hexagon septagon octagon
doublecircle doubleoctagon tripleoctagon invtriangle invtrapezium invhouse Mdiamond Msquare Mcircle rect rectangle square star none underline cylinder note
tab folder box3d component promoter cds terminator utr primersite restrictionsite fivepoverhang threepoverhang noverhang assembly signature insulator
ribosite rnastab proteasesite proteinstab rpromoter rarrow larrow lpromoter record Mrecord""".split()),
    "color_name": COLORS,
}

# documented defaults; a text stands for itself, whether the library quotes it or not
DEFAULTS = {
    "_background": ("<none>", ""), "area": 1, "arrowhead": "normal", "arrowtail": "normal", "arrowsize": 1, "center": False, "charset": "UTF-8", "class": "",
    "colorscheme": "", "comment": "", "compound": False, "concentrate": False, "Damping": 0.99, "decorate": False, "constraint": True, "dim": 2, "dimen": 2,
    "clusterrank": "local", "dir": ("forward", "none"), "diredgeconstraints": False, "distortion": 0, "dpi": (96, 0), "esep": "+3", "fixedsize": False,
    "fontname": "Times-Roman", "href": "", "id": "", "fontsize": 14, "fontnames": "", "fontpath": ("<system-dependent>", ""), "forcelabels": True,
    "headclip": True, "headhref": "", "headlabel": "", "headtarget": ("<none>", ""), "headtooltip": "", "headURL": "", "height": 0.5, "image": "", "imagepos": "mc",
    "imagescale": False, "imagepath": "", "K": 0.3, "label": ("", "\\N", "\\G"), "label_scheme": 0, "labelangle": -25, "labeldistance": 1, "labelfloat": False,
    "labelfontname": "Times-Roman", "labelfontsize": 14, "labelhref": "", "labeljust": "c", "labelloc": ("t", "b", "c"), "labeltarget": ("<none>", ""), "labeltooltip": "", "labelURL": "",
    "landscape": False, "layer": "", "layerlistsep": ",", "layers": "", "layerselect": "", "layersep": (":\t ", " :\t"), "layout": "", "len": (1, 0.3), "levelsgap": 0, "lhead": "", "ltail": "",
    "mclimit": 1, "mindist": 1, "minlen": 1, "mode": "major", "model": "shortpath", "mosek": False, "newrank": False, "nodesep": 0.25, "normalize": False, "notranslate": False,
    "nojustify": False, "ordering": "", "orientation": (0, ""), "outputorder": "breadthfirst", "overlap": True, "overlap_shrink": True, "pack": False, "overlap_scaling": -4, "pad": 0.0555,
    "packmode": "node", "pagedir": "BL", "penwidth": 1, "peripheries": (1, 0), "pin": False, "quadtree": "normal", "quantum": 0, "rankdir": "TB", "ranksep": (0.5, 1), "regular": False,
    "remincross": True, "repulsiveforce": 1, "resolution": 96, "rotate": 0, "rotation": 0, "samehead": "", "sametail": "", "samplepoints": (8, 20), "searchsize": 30, "sep": "+4", "shape": "ellipse",
    "shapefile": "", "showboxes": 0, "sides": 4, "skew": 0, "smoothing": "none", "sortv": 0, "start": "", "style": "", "stylesheet": "", "tailclip": True, "tailhref": "", "taillabel": "",
    "tailtarget": ("<none>", ""), "tailtooltip": "", "tailURL": "", "target": ("<none>", ""), "tooltip": "", "URL": ("<none>", ""), "vertices": "", "voro_margin": 0.05, "weight": 1, "width": 0.75,
    "xlabel": "", "xdotversion": "", "z": 0, "bgcolor": (), "color": "black", "fillcolor": ("lightgrey", "black"), "fontcolor": "black", "labelfontcolor": "black", "pencolor": "black",
    "edgehref": "", "edgetarget": ("<none>", ""), "edgetooltip": "", "edgeURL": "", "group": "", "root": ("<none>", ""), "ratio": (), "nslimit": (), "nslimit1": (), "maxiter": (), "gradientangle": "",
    "splines": (), "truecolor": (), "levels": (), "size": (), "page": (), "scale": (), "epsilon": (), "inputscale": (), "defaultdist": (), "margin": (),
}
