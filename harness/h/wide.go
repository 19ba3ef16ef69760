package h

// Structs with many fields (generated by tools/mkwide.py).

type Wide300 struct {
	F0   int
	F1   int
	F2   int
	F3   int
	F4   int
	F5   int
	F6   int
	F7   int
	F8   int
	F9   int
	F10  int
	F11  int
	F12  int
	F13  int
	F14  int
	F15  int
	F16  int
	F17  int
	F18  int
	F19  int
	F20  int
	F21  int
	F22  int
	F23  int
	F24  int
	F25  int
	F26  int
	F27  int
	F28  int
	F29  int
	F30  int
	F31  int
	F32  int
	F33  int
	F34  int
	F35  int
	F36  int
	F37  int
	F38  int
	F39  int
	F40  int
	F41  int
	F42  int
	F43  int
	F44  int
	F45  int
	F46  int
	F47  int
	F48  int
	F49  int
	F50  int
	F51  int
	F52  int
	F53  int
	F54  int
	F55  int
	F56  int
	F57  int
	F58  int
	F59  int
	F60  int
	F61  int
	F62  int
	F63  int
	F64  int
	F65  int
	F66  int
	F67  int
	F68  int
	F69  int
	F70  int
	F71  int
	F72  int
	F73  int
	F74  int
	F75  int
	F76  int
	F77  int
	F78  int
	F79  int
	F80  int
	F81  int
	F82  int
	F83  int
	F84  int
	F85  int
	F86  int
	F87  int
	F88  int
	F89  int
	F90  int
	F91  int
	F92  int
	F93  int
	F94  int
	F95  int
	F96  int
	F97  int
	F98  int
	F99  int
	F100 int
	F101 int
	F102 int
	F103 int
	F104 int
	F105 int
	F106 int
	F107 int
	F108 int
	F109 int
	F110 int
	F111 int
	F112 int
	F113 int
	F114 int
	F115 int
	F116 int
	F117 int
	F118 int
	F119 int
	F120 int
	F121 int
	F122 int
	F123 int
	F124 int
	F125 int
	F126 int
	F127 int
	F128 int
	F129 int
	F130 int
	F131 int
	F132 int
	F133 int
	F134 int
	F135 int
	F136 int
	F137 int
	F138 int
	F139 int
	F140 int
	F141 int
	F142 int
	F143 int
	F144 int
	F145 int
	F146 int
	F147 int
	F148 int
	F149 int
	F150 int
	F151 int
	F152 int
	F153 int
	F154 int
	F155 int
	F156 int
	F157 int
	F158 int
	F159 int
	F160 int
	F161 int
	F162 int
	F163 int
	F164 int
	F165 int
	F166 int
	F167 int
	F168 int
	F169 int
	F170 int
	F171 int
	F172 int
	F173 int
	F174 int
	F175 int
	F176 int
	F177 int
	F178 int
	F179 int
	F180 int
	F181 int
	F182 int
	F183 int
	F184 int
	F185 int
	F186 int
	F187 int
	F188 int
	F189 int
	F190 int
	F191 int
	F192 int
	F193 int
	F194 int
	F195 int
	F196 int
	F197 int
	F198 int
	F199 int
	F200 int
	F201 int
	F202 int
	F203 int
	F204 int
	F205 int
	F206 int
	F207 int
	F208 int
	F209 int
	F210 int
	F211 int
	F212 int
	F213 int
	F214 int
	F215 int
	F216 int
	F217 int
	F218 int
	F219 int
	F220 int
	F221 int
	F222 int
	F223 int
	F224 int
	F225 int
	F226 int
	F227 int
	F228 int
	F229 int
	F230 int
	F231 int
	F232 int
	F233 int
	F234 int
	F235 int
	F236 int
	F237 int
	F238 int
	F239 int
	F240 int
	F241 int
	F242 int
	F243 int
	F244 int
	F245 int
	F246 int
	F247 int
	F248 int
	F249 int
	F250 int
	F251 int
	F252 int
	F253 int
	F254 int
	F255 int
	F256 int
	F257 int
	F258 int
	F259 int
	F260 int
	F261 int
	F262 int
	F263 int
	F264 int
	F265 int
	F266 int
	F267 int
	F268 int
	F269 int
	F270 int
	F271 int
	F272 int
	F273 int
	F274 int
	F275 int
	F276 int
	F277 int
	F278 int
	F279 int
	F280 int
	F281 int
	F282 int
	F283 int
	F284 int
	F285 int
	F286 int
	F287 int
	F288 int
	F289 int
	F290 int
	F291 int
	F292 int
	F293 int
	F294 int
	F295 int
	F296 int
	F297 int
	F298 int
	F299 int
}

type Omit130 struct {
	F0   int `php:"f0,omitempty"`
	F1   int `php:"f1,omitempty"`
	F2   int `php:"f2,omitempty"`
	F3   int `php:"f3,omitempty"`
	F4   int `php:"f4,omitempty"`
	F5   int `php:"f5,omitempty"`
	F6   int `php:"f6,omitempty"`
	F7   int `php:"f7,omitempty"`
	F8   int `php:"f8,omitempty"`
	F9   int `php:"f9,omitempty"`
	F10  int `php:"f10,omitempty"`
	F11  int `php:"f11,omitempty"`
	F12  int `php:"f12,omitempty"`
	F13  int `php:"f13,omitempty"`
	F14  int `php:"f14,omitempty"`
	F15  int `php:"f15,omitempty"`
	F16  int `php:"f16,omitempty"`
	F17  int `php:"f17,omitempty"`
	F18  int `php:"f18,omitempty"`
	F19  int `php:"f19,omitempty"`
	F20  int `php:"f20,omitempty"`
	F21  int `php:"f21,omitempty"`
	F22  int `php:"f22,omitempty"`
	F23  int `php:"f23,omitempty"`
	F24  int `php:"f24,omitempty"`
	F25  int `php:"f25,omitempty"`
	F26  int `php:"f26,omitempty"`
	F27  int `php:"f27,omitempty"`
	F28  int `php:"f28,omitempty"`
	F29  int `php:"f29,omitempty"`
	F30  int `php:"f30,omitempty"`
	F31  int `php:"f31,omitempty"`
	F32  int `php:"f32,omitempty"`
	F33  int `php:"f33,omitempty"`
	F34  int `php:"f34,omitempty"`
	F35  int `php:"f35,omitempty"`
	F36  int `php:"f36,omitempty"`
	F37  int `php:"f37,omitempty"`
	F38  int `php:"f38,omitempty"`
	F39  int `php:"f39,omitempty"`
	F40  int `php:"f40,omitempty"`
	F41  int `php:"f41,omitempty"`
	F42  int `php:"f42,omitempty"`
	F43  int `php:"f43,omitempty"`
	F44  int `php:"f44,omitempty"`
	F45  int `php:"f45,omitempty"`
	F46  int `php:"f46,omitempty"`
	F47  int `php:"f47,omitempty"`
	F48  int `php:"f48,omitempty"`
	F49  int `php:"f49,omitempty"`
	F50  int `php:"f50,omitempty"`
	F51  int `php:"f51,omitempty"`
	F52  int `php:"f52,omitempty"`
	F53  int `php:"f53,omitempty"`
	F54  int `php:"f54,omitempty"`
	F55  int `php:"f55,omitempty"`
	F56  int `php:"f56,omitempty"`
	F57  int `php:"f57,omitempty"`
	F58  int `php:"f58,omitempty"`
	F59  int `php:"f59,omitempty"`
	F60  int `php:"f60,omitempty"`
	F61  int `php:"f61,omitempty"`
	F62  int `php:"f62,omitempty"`
	F63  int `php:"f63,omitempty"`
	F64  int `php:"f64,omitempty"`
	F65  int `php:"f65,omitempty"`
	F66  int `php:"f66,omitempty"`
	F67  int `php:"f67,omitempty"`
	F68  int `php:"f68,omitempty"`
	F69  int `php:"f69,omitempty"`
	F70  int `php:"f70,omitempty"`
	F71  int `php:"f71,omitempty"`
	F72  int `php:"f72,omitempty"`
	F73  int `php:"f73,omitempty"`
	F74  int `php:"f74,omitempty"`
	F75  int `php:"f75,omitempty"`
	F76  int `php:"f76,omitempty"`
	F77  int `php:"f77,omitempty"`
	F78  int `php:"f78,omitempty"`
	F79  int `php:"f79,omitempty"`
	F80  int `php:"f80,omitempty"`
	F81  int `php:"f81,omitempty"`
	F82  int `php:"f82,omitempty"`
	F83  int `php:"f83,omitempty"`
	F84  int `php:"f84,omitempty"`
	F85  int `php:"f85,omitempty"`
	F86  int `php:"f86,omitempty"`
	F87  int `php:"f87,omitempty"`
	F88  int `php:"f88,omitempty"`
	F89  int `php:"f89,omitempty"`
	F90  int `php:"f90,omitempty"`
	F91  int `php:"f91,omitempty"`
	F92  int `php:"f92,omitempty"`
	F93  int `php:"f93,omitempty"`
	F94  int `php:"f94,omitempty"`
	F95  int `php:"f95,omitempty"`
	F96  int `php:"f96,omitempty"`
	F97  int `php:"f97,omitempty"`
	F98  int `php:"f98,omitempty"`
	F99  int `php:"f99,omitempty"`
	F100 int `php:"f100,omitempty"`
	F101 int `php:"f101,omitempty"`
	F102 int `php:"f102,omitempty"`
	F103 int `php:"f103,omitempty"`
	F104 int `php:"f104,omitempty"`
	F105 int `php:"f105,omitempty"`
	F106 int `php:"f106,omitempty"`
	F107 int `php:"f107,omitempty"`
	F108 int `php:"f108,omitempty"`
	F109 int `php:"f109,omitempty"`
	F110 int `php:"f110,omitempty"`
	F111 int `php:"f111,omitempty"`
	F112 int `php:"f112,omitempty"`
	F113 int `php:"f113,omitempty"`
	F114 int `php:"f114,omitempty"`
	F115 int `php:"f115,omitempty"`
	F116 int `php:"f116,omitempty"`
	F117 int `php:"f117,omitempty"`
	F118 int `php:"f118,omitempty"`
	F119 int `php:"f119,omitempty"`
	F120 int `php:"f120,omitempty"`
	F121 int `php:"f121,omitempty"`
	F122 int `php:"f122,omitempty"`
	F123 int `php:"f123,omitempty"`
	F124 int `php:"f124,omitempty"`
	F125 int `php:"f125,omitempty"`
	F126 int `php:"f126,omitempty"`
	F127 int `php:"f127,omitempty"`
	F128 int `php:"f128,omitempty"`
	F129 int `php:"f129,omitempty"`
}

type Mixed70 struct {
	F0  int
	F1  int `php:",omitempty"`
	F2  int `php:"-"`
	F3  int `php:",string"`
	F4  int `php:"g4,string,omitempty"`
	F5  int
	F6  int `php:",omitempty"`
	F7  int `php:"-"`
	F8  int `php:",string"`
	F9  int `php:"g9,string,omitempty"`
	F10 int
	F11 int `php:",omitempty"`
	F12 int `php:"-"`
	F13 int `php:",string"`
	F14 int `php:"g14,string,omitempty"`
	F15 int
	F16 int `php:",omitempty"`
	F17 int `php:"-"`
	F18 int `php:",string"`
	F19 int `php:"g19,string,omitempty"`
	F20 int
	F21 int `php:",omitempty"`
	F22 int `php:"-"`
	F23 int `php:",string"`
	F24 int `php:"g24,string,omitempty"`
	F25 int
	F26 int `php:",omitempty"`
	F27 int `php:"-"`
	F28 int `php:",string"`
	F29 int `php:"g29,string,omitempty"`
	F30 int
	F31 int `php:",omitempty"`
	F32 int `php:"-"`
	F33 int `php:",string"`
	F34 int `php:"g34,string,omitempty"`
	F35 int
	F36 int `php:",omitempty"`
	F37 int `php:"-"`
	F38 int `php:",string"`
	F39 int `php:"g39,string,omitempty"`
	F40 int
	F41 int `php:",omitempty"`
	F42 int `php:"-"`
	F43 int `php:",string"`
	F44 int `php:"g44,string,omitempty"`
	F45 int
	F46 int `php:",omitempty"`
	F47 int `php:"-"`
	F48 int `php:",string"`
	F49 int `php:"g49,string,omitempty"`
	F50 int
	F51 int `php:",omitempty"`
	F52 int `php:"-"`
	F53 int `php:",string"`
	F54 int `php:"g54,string,omitempty"`
	F55 int
	F56 int `php:",omitempty"`
	F57 int `php:"-"`
	F58 int `php:",string"`
	F59 int `php:"g59,string,omitempty"`
	F60 int
	F61 int `php:",omitempty"`
	F62 int `php:"-"`
	F63 int `php:",string"`
	F64 int `php:"g64,string,omitempty"`
	F65 int
	F66 int `php:",omitempty"`
	F67 int `php:"-"`
	F68 int `php:",string"`
	F69 int `php:"g69,string,omitempty"`
}
