------------------------------- MODULE Keywords -------------------------------
(* The 147 color keywords of SVG and CSS. *)
KeywordTable == <<
  [name |-> "aliceblue", rgb |-> <<240, 248, 255>>],
  [name |-> "antiquewhite", rgb |-> <<250, 235, 215>>],
  [name |-> "aqua", rgb |-> <<0, 255, 255>>],
  [name |-> "aquamarine", rgb |-> <<127, 255, 212>>],
  [name |-> "azure", rgb |-> <<240, 255, 255>>],
  [name |-> "beige", rgb |-> <<245, 245, 220>>],
  [name |-> "bisque", rgb |-> <<255, 228, 196>>],
  [name |-> "black", rgb |-> <<0, 0, 0>>],
  [name |-> "blanchedalmond", rgb |-> <<255, 235, 205>>],
  [name |-> "blue", rgb |-> <<0, 0, 255>>],
  [name |-> "blueviolet", rgb |-> <<138, 43, 226>>],
  [name |-> "brown", rgb |-> <<165, 42, 42>>],
  [name |-> "burlywood", rgb |-> <<222, 184, 135>>],
  [name |-> "cadetblue", rgb |-> <<95, 158, 160>>],
  [name |-> "chartreuse", rgb |-> <<127, 255, 0>>],
  [name |-> "chocolate", rgb |-> <<210, 105, 30>>],
  [name |-> "coral", rgb |-> <<255, 127, 80>>],
  [name |-> "cornflowerblue", rgb |-> <<100, 149, 237>>],
  [name |-> "cornsilk", rgb |-> <<255, 248, 220>>],
  [name |-> "crimson", rgb |-> <<220, 20, 60>>],
  [name |-> "cyan", rgb |-> <<0, 255, 255>>],
  [name |-> "darkblue", rgb |-> <<0, 0, 139>>],
  [name |-> "darkcyan", rgb |-> <<0, 139, 139>>],
  [name |-> "darkgoldenrod", rgb |-> <<184, 134, 11>>],
  [name |-> "darkgray", rgb |-> <<169, 169, 169>>],
  [name |-> "darkgreen", rgb |-> <<0, 100, 0>>],
  [name |-> "darkgrey", rgb |-> <<169, 169, 169>>],
  [name |-> "darkkhaki", rgb |-> <<189, 183, 107>>],
  [name |-> "darkmagenta", rgb |-> <<139, 0, 139>>],
  [name |-> "darkolivegreen", rgb |-> <<85, 107, 47>>],
  [name |-> "darkorange", rgb |-> <<255, 140, 0>>],
  [name |-> "darkorchid", rgb |-> <<153, 50, 204>>],
  [name |-> "darkred", rgb |-> <<139, 0, 0>>],
  [name |-> "darksalmon", rgb |-> <<233, 150, 122>>],
  [name |-> "darkseagreen", rgb |-> <<143, 188, 143>>],
  [name |-> "darkslateblue", rgb |-> <<72, 61, 139>>],
  [name |-> "darkslategray", rgb |-> <<47, 79, 79>>],
  [name |-> "darkslategrey", rgb |-> <<47, 79, 79>>],
  [name |-> "darkturquoise", rgb |-> <<0, 206, 209>>],
  [name |-> "darkviolet", rgb |-> <<148, 0, 211>>],
  [name |-> "deeppink", rgb |-> <<255, 20, 147>>],
  [name |-> "deepskyblue", rgb |-> <<0, 191, 255>>],
  [name |-> "dimgray", rgb |-> <<105, 105, 105>>],
  [name |-> "dimgrey", rgb |-> <<105, 105, 105>>],
  [name |-> "dodgerblue", rgb |-> <<30, 144, 255>>],
  [name |-> "firebrick", rgb |-> <<178, 34, 34>>],
  [name |-> "floralwhite", rgb |-> <<255, 250, 240>>],
  [name |-> "forestgreen", rgb |-> <<34, 139, 34>>],
  [name |-> "fuchsia", rgb |-> <<255, 0, 255>>],
  [name |-> "gainsboro", rgb |-> <<220, 220, 220>>],
  [name |-> "ghostwhite", rgb |-> <<248, 248, 255>>],
  [name |-> "gold", rgb |-> <<255, 215, 0>>],
  [name |-> "goldenrod", rgb |-> <<218, 165, 32>>],
  [name |-> "gray", rgb |-> <<128, 128, 128>>],
  [name |-> "green", rgb |-> <<0, 128, 0>>],
  [name |-> "greenyellow", rgb |-> <<173, 255, 47>>],
  [name |-> "grey", rgb |-> <<128, 128, 128>>],
  [name |-> "honeydew", rgb |-> <<240, 255, 240>>],
  [name |-> "hotpink", rgb |-> <<255, 105, 180>>],
  [name |-> "indianred", rgb |-> <<205, 92, 92>>],
  [name |-> "indigo", rgb |-> <<75, 0, 130>>],
  [name |-> "ivory", rgb |-> <<255, 255, 240>>],
  [name |-> "khaki", rgb |-> <<240, 230, 140>>],
  [name |-> "lavender", rgb |-> <<230, 230, 250>>],
  [name |-> "lavenderblush", rgb |-> <<255, 240, 245>>],
  [name |-> "lawngreen", rgb |-> <<124, 252, 0>>],
  [name |-> "lemonchiffon", rgb |-> <<255, 250, 205>>],
  [name |-> "lightblue", rgb |-> <<173, 216, 230>>],
  [name |-> "lightcoral", rgb |-> <<240, 128, 128>>],
  [name |-> "lightcyan", rgb |-> <<224, 255, 255>>],
  [name |-> "lightgoldenrodyellow", rgb |-> <<250, 250, 210>>],
  [name |-> "lightgray", rgb |-> <<211, 211, 211>>],
  [name |-> "lightgreen", rgb |-> <<144, 238, 144>>],
  [name |-> "lightgrey", rgb |-> <<211, 211, 211>>],
  [name |-> "lightpink", rgb |-> <<255, 182, 193>>],
  [name |-> "lightsalmon", rgb |-> <<255, 160, 122>>],
  [name |-> "lightseagreen", rgb |-> <<32, 178, 170>>],
  [name |-> "lightskyblue", rgb |-> <<135, 206, 250>>],
  [name |-> "lightslategray", rgb |-> <<119, 136, 153>>],
  [name |-> "lightslategrey", rgb |-> <<119, 136, 153>>],
  [name |-> "lightsteelblue", rgb |-> <<176, 196, 222>>],
  [name |-> "lightyellow", rgb |-> <<255, 255, 224>>],
  [name |-> "lime", rgb |-> <<0, 255, 0>>],
  [name |-> "limegreen", rgb |-> <<50, 205, 50>>],
  [name |-> "linen", rgb |-> <<250, 240, 230>>],
  [name |-> "magenta", rgb |-> <<255, 0, 255>>],
  [name |-> "maroon", rgb |-> <<128, 0, 0>>],
  [name |-> "mediumaquamarine", rgb |-> <<102, 205, 170>>],
  [name |-> "mediumblue", rgb |-> <<0, 0, 205>>],
  [name |-> "mediumorchid", rgb |-> <<186, 85, 211>>],
  [name |-> "mediumpurple", rgb |-> <<147, 112, 219>>],
  [name |-> "mediumseagreen", rgb |-> <<60, 179, 113>>],
  [name |-> "mediumslateblue", rgb |-> <<123, 104, 238>>],
  [name |-> "mediumspringgreen", rgb |-> <<0, 250, 154>>],
  [name |-> "mediumturquoise", rgb |-> <<72, 209, 204>>],
  [name |-> "mediumvioletred", rgb |-> <<199, 21, 133>>],
  [name |-> "midnightblue", rgb |-> <<25, 25, 112>>],
  [name |-> "mintcream", rgb |-> <<245, 255, 250>>],
  [name |-> "mistyrose", rgb |-> <<255, 228, 225>>],
  [name |-> "moccasin", rgb |-> <<255, 228, 181>>],
  [name |-> "navajowhite", rgb |-> <<255, 222, 173>>],
  [name |-> "navy", rgb |-> <<0, 0, 128>>],
  [name |-> "oldlace", rgb |-> <<253, 245, 230>>],
  [name |-> "olive", rgb |-> <<128, 128, 0>>],
  [name |-> "olivedrab", rgb |-> <<107, 142, 35>>],
  [name |-> "orange", rgb |-> <<255, 165, 0>>],
  [name |-> "orangered", rgb |-> <<255, 69, 0>>],
  [name |-> "orchid", rgb |-> <<218, 112, 214>>],
  [name |-> "palegoldenrod", rgb |-> <<238, 232, 170>>],
  [name |-> "palegreen", rgb |-> <<152, 251, 152>>],
  [name |-> "paleturquoise", rgb |-> <<175, 238, 238>>],
  [name |-> "palevioletred", rgb |-> <<219, 112, 147>>],
  [name |-> "papayawhip", rgb |-> <<255, 239, 213>>],
  [name |-> "peachpuff", rgb |-> <<255, 218, 185>>],
  [name |-> "peru", rgb |-> <<205, 133, 63>>],
  [name |-> "pink", rgb |-> <<255, 192, 203>>],
  [name |-> "plum", rgb |-> <<221, 160, 221>>],
  [name |-> "powderblue", rgb |-> <<176, 224, 230>>],
  [name |-> "purple", rgb |-> <<128, 0, 128>>],
  [name |-> "red", rgb |-> <<255, 0, 0>>],
  [name |-> "rosybrown", rgb |-> <<188, 143, 143>>],
  [name |-> "royalblue", rgb |-> <<65, 105, 225>>],
  [name |-> "saddlebrown", rgb |-> <<139, 69, 19>>],
  [name |-> "salmon", rgb |-> <<250, 128, 114>>],
  [name |-> "sandybrown", rgb |-> <<244, 164, 96>>],
  [name |-> "seagreen", rgb |-> <<46, 139, 87>>],
  [name |-> "seashell", rgb |-> <<255, 245, 238>>],
  [name |-> "sienna", rgb |-> <<160, 82, 45>>],
  [name |-> "silver", rgb |-> <<192, 192, 192>>],
  [name |-> "skyblue", rgb |-> <<135, 206, 235>>],
  [name |-> "slateblue", rgb |-> <<106, 90, 205>>],
  [name |-> "slategray", rgb |-> <<112, 128, 144>>],
  [name |-> "slategrey", rgb |-> <<112, 128, 144>>],
  [name |-> "snow", rgb |-> <<255, 250, 250>>],
  [name |-> "springgreen", rgb |-> <<0, 255, 127>>],
  [name |-> "steelblue", rgb |-> <<70, 130, 180>>],
  [name |-> "tan", rgb |-> <<210, 180, 140>>],
  [name |-> "teal", rgb |-> <<0, 128, 128>>],
  [name |-> "thistle", rgb |-> <<216, 191, 216>>],
  [name |-> "tomato", rgb |-> <<255, 99, 71>>],
  [name |-> "turquoise", rgb |-> <<64, 224, 208>>],
  [name |-> "violet", rgb |-> <<238, 130, 238>>],
  [name |-> "wheat", rgb |-> <<245, 222, 179>>],
  [name |-> "white", rgb |-> <<255, 255, 255>>],
  [name |-> "whitesmoke", rgb |-> <<245, 245, 245>>],
  [name |-> "yellow", rgb |-> <<255, 255, 0>>],
  [name |-> "yellowgreen", rgb |-> <<154, 205, 50>>] >>
===============================================================================
