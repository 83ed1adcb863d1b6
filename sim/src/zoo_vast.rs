// Types with more members, variants and elements than a byte can count.
zoo_struct!(Vast {
    m0: u16 = "m0", m1: u16 = "m1", m2: u16 = "m2", m3: u16 = "m3", m4: u16 = "m4", m5: u16 = "m5", m6: u16 = "m6", m7: Option<u8> = "m7", m8: u16 = "m8", m9: u16 = "m9",
    m10: u16 = "m10", m11: String = "m11", m12: u16 = "m12", m13: u16 = "m13", m14: u16 = "m14", m15: u16 = "m15", m16: u16 = "m16", m17: u16 = "m17", m18: u16 = "m18", m19: u16 = "m19",
    m20: u16 = "m20", m21: u16 = "m21", m22: u16 = "m22", m23: u16 = "m23", m24: u16 = "m24", m25: u16 = "m25", m26: u16 = "m26", m27: u16 = "m27", m28: u16 = "m28", m29: u16 = "m29",
    m30: u16 = "m30", m31: u16 = "m31", m32: u16 = "m32", m33: u16 = "m33", m34: u16 = "m34", m35: u16 = "m35", m36: u16 = "m36", m37: u16 = "m37", m38: u16 = "m38", m39: u16 = "m39",
    m40: u16 = "m40", m41: u16 = "m41", m42: u16 = "m42", m43: u16 = "m43", m44: u16 = "m44", m45: u16 = "m45", m46: u16 = "m46", m47: u16 = "m47", m48: u16 = "m48", m49: u16 = "m49",
    m50: u16 = "m50", m51: u16 = "m51", m52: u16 = "m52", m53: u16 = "m53", m54: u16 = "m54", m55: u16 = "m55", m56: u16 = "m56", m57: Option<u8> = "m57", m58: u16 = "m58", m59: u16 = "m59",
    m60: u16 = "m60", m61: u16 = "m61", m62: u16 = "m62", m63: u16 = "m63", m64: u16 = "m64", m65: u16 = "m65", m66: u16 = "m66", m67: u16 = "m67", m68: u16 = "m68", m69: u16 = "m69",
    m70: u16 = "m70", m71: String = "m71", m72: u16 = "m72", m73: u16 = "m73", m74: u16 = "m74", m75: u16 = "m75", m76: u16 = "m76", m77: u16 = "m77", m78: u16 = "m78", m79: u16 = "m79",
    m80: u16 = "m80", m81: u16 = "m81", m82: u16 = "m82", m83: u16 = "m83", m84: u16 = "m84", m85: u16 = "m85", m86: u16 = "m86", m87: u16 = "m87", m88: u16 = "m88", m89: u16 = "m89",
    m90: u16 = "m90", m91: u16 = "m91", m92: u16 = "m92", m93: u16 = "m93", m94: u16 = "m94", m95: u16 = "m95", m96: u16 = "m96", m97: u16 = "m97", m98: u16 = "m98", m99: u16 = "m99",
    m100: u16 = "m100", m101: u16 = "m101", m102: u16 = "m102", m103: u16 = "m103", m104: u16 = "m104", m105: u16 = "m105", m106: u16 = "m106", m107: Option<u8> = "m107", m108: u16 = "m108", m109: u16 = "m109",
    m110: u16 = "m110", m111: u16 = "m111", m112: u16 = "m112", m113: u16 = "m113", m114: u16 = "m114", m115: u16 = "m115", m116: u16 = "m116", m117: u16 = "m117", m118: u16 = "m118", m119: u16 = "m119",
    m120: u16 = "m120", m121: u16 = "m121", m122: u16 = "m122", m123: u16 = "m123", m124: u16 = "m124", m125: u16 = "m125", m126: u16 = "m126", m127: u16 = "m127", m128: u16 = "m128", m129: u16 = "m129",
    m130: u16 = "m130", m131: String = "m131", m132: u16 = "m132", m133: u16 = "m133", m134: u16 = "m134", m135: u16 = "m135", m136: u16 = "m136", m137: u16 = "m137", m138: u16 = "m138", m139: u16 = "m139",
    m140: u16 = "m140", m141: u16 = "m141", m142: u16 = "m142", m143: u16 = "m143", m144: u16 = "m144", m145: u16 = "m145", m146: u16 = "m146", m147: u16 = "m147", m148: u16 = "m148", m149: u16 = "m149",
    m150: u16 = "m150", m151: u16 = "m151", m152: u16 = "m152", m153: u16 = "m153", m154: u16 = "m154", m155: u16 = "m155", m156: u16 = "m156", m157: Option<u8> = "m157", m158: u16 = "m158", m159: u16 = "m159",
    m160: u16 = "m160", m161: u16 = "m161", m162: u16 = "m162", m163: u16 = "m163", m164: u16 = "m164", m165: u16 = "m165", m166: u16 = "m166", m167: u16 = "m167", m168: u16 = "m168", m169: u16 = "m169",
    m170: u16 = "m170", m171: u16 = "m171", m172: u16 = "m172", m173: u16 = "m173", m174: u16 = "m174", m175: u16 = "m175", m176: u16 = "m176", m177: u16 = "m177", m178: u16 = "m178", m179: u16 = "m179",
    m180: u16 = "m180", m181: u16 = "m181", m182: u16 = "m182", m183: u16 = "m183", m184: u16 = "m184", m185: u16 = "m185", m186: u16 = "m186", m187: u16 = "m187", m188: u16 = "m188", m189: u16 = "m189",
    m190: u16 = "m190", m191: String = "m191", m192: u16 = "m192", m193: u16 = "m193", m194: u16 = "m194", m195: u16 = "m195", m196: u16 = "m196", m197: u16 = "m197", m198: u16 = "m198", m199: u16 = "m199",
    m200: u16 = "m200", m201: u16 = "m201", m202: u16 = "m202", m203: u16 = "m203", m204: u16 = "m204", m205: u16 = "m205", m206: u16 = "m206", m207: Option<u8> = "m207", m208: u16 = "m208", m209: u16 = "m209",
    m210: u16 = "m210", m211: u16 = "m211", m212: u16 = "m212", m213: u16 = "m213", m214: u16 = "m214", m215: u16 = "m215", m216: u16 = "m216", m217: u16 = "m217", m218: u16 = "m218", m219: u16 = "m219",
    m220: u16 = "m220", m221: u16 = "m221", m222: u16 = "m222", m223: u16 = "m223", m224: u16 = "m224", m225: u16 = "m225", m226: u16 = "m226", m227: u16 = "m227", m228: u16 = "m228", m229: u16 = "m229",
    m230: u16 = "m230", m231: u16 = "m231", m232: u16 = "m232", m233: u16 = "m233", m234: u16 = "m234", m235: u16 = "m235", m236: u16 = "m236", m237: u16 = "m237", m238: u16 = "m238", m239: u16 = "m239",
    m240: u16 = "m240", m241: u16 = "m241", m242: u16 = "m242", m243: u16 = "m243", m244: u16 = "m244", m245: u16 = "m245", m246: u16 = "m246", m247: u16 = "m247", m248: u16 = "m248", m249: u16 = "m249",
    m250: u16 = "m250", m251: String = "m251", m252: u16 = "m252", m253: u16 = "m253", m254: u16 = "m254", m255: u16 = "m255", m256: u16 = "m256", m257: Option<u8> = "m257", m258: u16 = "m258", m259: u16 = "m259",
    m260: u16 = "m260", m261: u16 = "m261", m262: u16 = "m262", m263: u16 = "m263", m264: u16 = "m264", m265: u16 = "m265", m266: u16 = "m266", m267: u16 = "m267", m268: u16 = "m268", m269: u16 = "m269",
    m270: u16 = "m270", m271: u16 = "m271", m272: u16 = "m272", m273: u16 = "m273", m274: u16 = "m274", m275: u16 = "m275", m276: u16 = "m276", m277: u16 = "m277", m278: u16 = "m278", m279: u16 = "m279",
    m280: u16 = "m280", m281: u16 = "m281", m282: u16 = "m282", m283: u16 = "m283", m284: u16 = "m284", m285: u16 = "m285", m286: u16 = "m286", m287: u16 = "m287", m288: u16 = "m288", m289: u16 = "m289",
    m290: u16 = "m290", m291: u16 = "m291", m292: u16 = "m292", m293: u16 = "m293", m294: u16 = "m294", m295: u16 = "m295", m296: u16 = "m296", m297: u16 = "m297", m298: u16 = "m298", m299: u16 = "m299",
});
zoo_enum!(Crowd {
    V0 = "V0", V1 = "V1", V2 = "V2", V3 = "V3", V4 = "V4", V5 = "V5", V6 = "V6", V7 = "V7", V8 = "V8", V9 = "V9",
    V10 = "V10", V11 = "V11", V12 = "V12", V13 = "V13", V14 = "V14", V15 = "V15", V16 = "V16", V17 = "V17", V18 = "V18", V19 = "V19",
    V20 = "V20", V21 = "V21", V22 = "V22", V23 = "V23", V24 = "V24", V25 = "V25", V26 = "V26", V27 = "V27", V28 = "V28", V29 = "V29",
    V30 = "V30", V31 = "V31", V32 = "V32", V33 = "V33", V34 = "V34", V35 = "V35", V36 = "V36", V37 = "V37", V38 = "V38", V39 = "V39",
    V40 = "V40", V41 = "V41", V42 = "V42", V43 = "V43", V44 = "V44", V45 = "V45", V46 = "V46", V47 = "V47", V48 = "V48", V49 = "V49",
    V50 = "V50", V51 = "V51", V52 = "V52", V53 = "V53", V54 = "V54", V55 = "V55", V56 = "V56", V57 = "V57", V58 = "V58", V59 = "V59",
    V60 = "V60", V61 = "V61", V62 = "V62", V63 = "V63", V64 = "V64", V65 = "V65", V66 = "V66", V67 = "V67", V68 = "V68", V69 = "V69",
    V70 = "V70", V71 = "V71", V72 = "V72", V73 = "V73", V74 = "V74", V75 = "V75", V76 = "V76", V77 = "V77", V78 = "V78", V79 = "V79",
    V80 = "V80", V81 = "V81", V82 = "V82", V83 = "V83", V84 = "V84", V85 = "V85", V86 = "V86", V87 = "V87", V88 = "V88", V89 = "V89",
    V90 = "V90", V91 = "V91", V92 = "V92", V93 = "V93", V94 = "V94", V95 = "V95", V96 = "V96", V97 = "V97", V98 = "V98", V99 = "V99",
    V100 = "V100", V101 = "V101", V102 = "V102", V103 = "V103", V104 = "V104", V105 = "V105", V106 = "V106", V107 = "V107", V108 = "V108", V109 = "V109",
    V110 = "V110", V111 = "V111", V112 = "V112", V113 = "V113", V114 = "V114", V115 = "V115", V116 = "V116", V117 = "V117", V118 = "V118", V119 = "V119",
    V120 = "V120", V121 = "V121", V122 = "V122", V123 = "V123", V124 = "V124", V125 = "V125", V126 = "V126", V127 = "V127", V128 = "V128", V129 = "V129",
    V130 = "V130", V131 = "V131", V132 = "V132", V133 = "V133", V134 = "V134", V135 = "V135", V136 = "V136", V137 = "V137", V138 = "V138", V139 = "V139",
    V140 = "V140", V141 = "V141", V142 = "V142", V143 = "V143", V144 = "V144", V145 = "V145", V146 = "V146", V147 = "V147", V148 = "V148", V149 = "V149",
    V150 = "V150", V151 = "V151", V152 = "V152", V153 = "V153", V154 = "V154", V155 = "V155", V156 = "V156", V157 = "V157", V158 = "V158", V159 = "V159",
    V160 = "V160", V161 = "V161", V162 = "V162", V163 = "V163", V164 = "V164", V165 = "V165", V166 = "V166", V167 = "V167", V168 = "V168", V169 = "V169",
    V170 = "V170", V171 = "V171", V172 = "V172", V173 = "V173", V174 = "V174", V175 = "V175", V176 = "V176", V177 = "V177", V178 = "V178", V179 = "V179",
    V180 = "V180", V181 = "V181", V182 = "V182", V183 = "V183", V184 = "V184", V185 = "V185", V186 = "V186", V187 = "V187", V188 = "V188", V189 = "V189",
    V190 = "V190", V191 = "V191", V192 = "V192", V193 = "V193", V194 = "V194", V195 = "V195", V196 = "V196", V197 = "V197", V198 = "V198", V199 = "V199",
    V200 = "V200", V201 = "V201", V202 = "V202", V203 = "V203", V204 = "V204", V205 = "V205", V206 = "V206", V207 = "V207", V208 = "V208", V209 = "V209",
    V210 = "V210", V211 = "V211", V212 = "V212", V213 = "V213", V214 = "V214", V215 = "V215", V216 = "V216", V217 = "V217", V218 = "V218", V219 = "V219",
    V220 = "V220", V221 = "V221", V222 = "V222", V223 = "V223", V224 = "V224", V225 = "V225", V226 = "V226", V227 = "V227", V228 = "V228", V229 = "V229",
    V230 = "V230", V231 = "V231", V232 = "V232", V233 = "V233", V234 = "V234", V235 = "V235", V236 = "V236", V237 = "V237", V238 = "V238", V239 = "V239",
    V240 = "V240", V241 = "V241", V242 = "V242", V243 = "V243", V244 = "V244", V245 = "V245", V246 = "V246", V247 = "V247", V248 = "V248", V249 = "V249",
    V250 = "V250", V251 = "V251", V252 = "V252", V253 = "V253", V254 = "V254", V255 = "V255", V256 = "V256", V257 = "V257", V258 = "V258", V259 = "V259",
    V260 = "V260", V261 = "V261", V262 = "V262", V263 = "V263", V264 = "V264", V265 = "V265", V266 = "V266", V267 = "V267", V268 = "V268", V269 = "V269",
    V270 = "V270", V271 = "V271", V272 = "V272", V273 = "V273", V274 = "V274", V275 = "V275", V276 = "V276", V277 = "V277", V278 = "V278", V279 = "V279",
    V280 = "V280", V281 = "V281", V282 = "V282", V283 = "V283", V284 = "V284", V285 = "V285", V286 = "V286", V287 = "V287", V288 = "V288", V289 = "V289",
    V290 = "V290", V291 = "V291", V292 = "V292", V293 = "V293", V294 = "V294", V295 = "V295", V296 = "V296", V297 = "V297", V298 = "V298", V299 = "V299",
});
