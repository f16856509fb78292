[tool-version] Z3 4.16.0
[mk-app] #1 true
[mk-app] #2 false
[mk-app] #1 true
[mk-app] #2 false
[mk-app] #3 pi
[mk-app] #4 euler
[mk-var] datatype#0 0
[mk-var] datatype#1 1
[mk-app] datatype#2 insert datatype#0 datatype#1
[mk-app] datatype#3 pattern datatype#2
[mk-app] datatype#4 head datatype#2
[mk-app] datatype#5 = datatype#0 datatype#4
[mk-quant] datatype#6 constructor_accessor_axiom 2 datatype#3 datatype#5
[attach-var-names] datatype#6 (;k!0) (;List)
[mk-app] datatype#7 tail datatype#2
[mk-app] datatype#8 = datatype#1 datatype#7
[mk-quant] datatype#9 constructor_accessor_axiom 2 datatype#3 datatype#8
[attach-var-names] datatype#9 (;k!0) (;List)
[mk-app] #5 bv
[attach-meaning] #5 bv #b0
[mk-var] #6 0
[mk-var] #7 1
[mk-var] #8 2
[mk-var] #9 3
[mk-var] #10 4
[mk-var] #11 5
[mk-var] #12 6
[mk-var] #13 7
[mk-var] #14 8
[mk-var] #15 9
[mk-var] #16 10
[mk-var] #17 11
[mk-var] #18 12
[mk-var] #19 13
[mk-var] #20 14
[mk-app] #21 + #14 #12
[attach-enode] #1 0
[attach-enode] #2 0
[mk-app] #22 fuel_defaults
[mk-var] #23 0
[mk-app] #24 fuel_bool #23
[mk-app] #25 fuel_bool_default #23
[mk-app] #26 = #24 #25
[mk-app] #27 pattern #24
[mk-quant] #28 prelude_fuel_defaults 1 #27 #26
[attach-var-names] #28 (|id| ; |FuelId|)
[mk-app] #29 => #22 #28
[mk-app] #30 not #22
[mk-app] #31 or #30 #28
[inst-discovered] theory-solving 0x0 basic# ; #29
[mk-app] #32 = #29 #31
[instance] 0x0 #32
[attach-enode] #32 0
[end-of-instance]
[mk-var] #32 1
[mk-var] #33 0
[mk-app] #34 mut_ref_update_current% #32 #33
[mk-app] #35 mut_ref_current% #34
[mk-app] #36 = #35 #33
[mk-app] #37 pattern #34
[mk-quant] #38 prelude_mut_ref_update_current_current 2 #37 #36
[attach-var-names] #38 (|arg| ; |Poly|) (|m| ; |Poly|)
[mk-app] #39 mut_ref_future% #34
[mk-app] #40 mut_ref_future% #32
[mk-app] #41 = #39 #40
[mk-quant] #42 prelude_mut_ref_update_current_future 2 #37 #41
[attach-var-names] #42 (|arg| ; |Poly|) (|m| ; |Poly|)
[mk-var] #43 2
[mk-var] #44 1
[mk-var] #45 0
[mk-app] #46 MUTREF #44 #45
[mk-app] #47 has_type #43 #46
[mk-app] #48 mut_ref_current% #43
[mk-app] #49 has_type #48 #45
[mk-app] #50 => #47 #49
[mk-app] #51 pattern #47 #48
[mk-quant] #52 prelude_mut_ref_current_has_type 3 #51 #50
[attach-var-names] #52 (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-app] #53 not #47
[mk-app] #54 or #53 #49
[inst-discovered] theory-solving 0x0 basic# ; #50
[mk-app] #55 = #50 #54
[instance] 0x0 #55
[attach-enode] #55 0
[end-of-instance]
[mk-quant] #55 prelude_mut_ref_current_has_type 3 #51 #54
[attach-var-names] #55 (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-app] #56 mut_ref_future% #43
[mk-app] #57 has_type #56 #45
[mk-app] #58 => #47 #57
[mk-app] #59 pattern #47 #56
[mk-quant] #60 prelude_mut_ref_future_has_type 3 #59 #58
[attach-var-names] #60 (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-app] #61 or #53 #57
[inst-discovered] theory-solving 0x0 basic# ; #58
[mk-app] #62 = #58 #61
[instance] 0x0 #62
[attach-enode] #62 0
[end-of-instance]
[mk-quant] #62 prelude_mut_ref_future_has_type 3 #59 #61
[attach-var-names] #62 (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-var] #63 3
[mk-var] #64 2
[mk-var] #65 1
[mk-app] #66 MUTREF #64 #65
[mk-app] #67 has_type #63 #66
[mk-app] #68 has_type #33 #65
[mk-app] #69 and #67 #68
[mk-app] #70 mut_ref_update_current% #63 #33
[mk-app] #71 has_type #70 #66
[mk-app] #72 => #69 #71
[mk-app] #73 pattern #67 #70
[mk-quant] #74 prelude_mut_ref_update_has_type 4 #73 #72
[attach-var-names] #74 (|arg| ; |Poly|) (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-app] #75 not #69
[mk-app] #76 or #75 #71
[inst-discovered] theory-solving 0x0 basic# ; #72
[mk-app] #77 = #72 #76
[instance] 0x0 #77
[attach-enode] #77 0
[end-of-instance]
[mk-quant] #77 prelude_mut_ref_update_has_type 4 #73 #76
[attach-var-names] #77 (|arg| ; |Poly|) (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-var] #78 0
[mk-app] #79 sized #78
[mk-app] #80 DST #78
[mk-app] #81 sized #80
[mk-app] #82 => #79 #81
[mk-app] #83 pattern #81
[mk-quant] #84 prelude_sized_decorate_struct_inherit 1 #83 #82
[attach-var-names] #84 (|d| ; |Dcr|)
[mk-app] #85 not #79
[mk-app] #86 or #85 #81
[inst-discovered] theory-solving 0x0 basic# ; #82
[mk-app] #87 = #82 #86
[instance] 0x0 #87
[attach-enode] #87 0
[end-of-instance]
[mk-quant] #87 prelude_sized_decorate_struct_inherit 1 #83 #86
[attach-var-names] #87 (|d| ; |Dcr|)
[mk-app] #88 REF #78
[mk-app] #89 sized #88
[mk-app] #90 pattern #89
[mk-quant] #91 prelude_sized_decorate_ref 1 #90 #89
[attach-var-names] #91 (|d| ; |Dcr|)
[mk-app] #92 BOX #64 #65 #78
[mk-app] #93 sized #92
[mk-app] #94 pattern #93
[mk-quant] #95 prelude_sized_decorate_box 3 #94 #93
[attach-var-names] #95 (|d2| ; |Dcr|) (|t| ; |Type|) (|d| ; |Dcr|)
[mk-app] #96 RC #64 #65 #78
[mk-app] #97 sized #96
[mk-app] #98 pattern #97
[mk-quant] #99 prelude_sized_decorate_rc 3 #98 #97
[attach-var-names] #99 (|d2| ; |Dcr|) (|t| ; |Type|) (|d| ; |Dcr|)
[mk-app] #100 ARC #64 #65 #78
[mk-app] #101 sized #100
[mk-app] #102 pattern #101
[mk-quant] #103 prelude_sized_decorate_arc 3 #102 #101
[attach-var-names] #103 (|d2| ; |Dcr|) (|t| ; |Type|) (|d| ; |Dcr|)
[mk-app] #104 GHOST #78
[mk-app] #105 sized #104
[mk-app] #106 pattern #105
[mk-quant] #107 prelude_sized_decorate_ghost 1 #106 #105
[attach-var-names] #107 (|d| ; |Dcr|)
[mk-app] #108 TRACKED #78
[mk-app] #109 sized #108
[mk-app] #110 pattern #109
[mk-quant] #111 prelude_sized_decorate_tracked 1 #110 #109
[attach-var-names] #111 (|d| ; |Dcr|)
[mk-app] #112 NEVER #78
[mk-app] #113 sized #112
[mk-app] #114 pattern #113
[mk-quant] #115 prelude_sized_decorate_never 1 #114 #113
[attach-var-names] #115 (|d| ; |Dcr|)
[mk-app] #116 CONST_PTR #78
[mk-app] #117 sized #116
[mk-app] #118 pattern #117
[mk-quant] #119 prelude_sized_decorate_const_ptr 1 #118 #117
[attach-var-names] #119 (|d| ; |Dcr|)
[mk-app] #120 $
[mk-app] #121 sized #120
[mk-var] #122 0
[mk-app] #123 CONST_INT #122
[mk-app] #124 const_int #123
[mk-app] #125 = #122 #124
[mk-app] #126 pattern #123
[mk-quant] #127 prelude_type_id_const_int 1 #126 #125
[attach-var-names] #127 (|i| ; |Int|)
[mk-var] #128 0
[mk-app] #129 CONST_BOOL #128
[mk-app] #130 const_bool #129
[mk-app] #131 = #128 #130
[mk-app] #132 pattern #129
[mk-quant] #133 prelude_type_id_const_bool 1 #132 #131
[attach-var-names] #133 (|b| ; |Bool|)
[mk-app] #134 B #128
[mk-app] #135 BOOL
[mk-app] #136 has_type #134 #135
[mk-app] #137 pattern #136
[mk-quant] #138 prelude_has_type_bool 1 #137 #136
[attach-var-names] #138 (|b| ; |Bool|)
[mk-app] #139 R #6
[mk-app] #140 REAL
[mk-app] #141 has_type #139 #140
[mk-app] #142 pattern #141
[mk-quant] #143 prelude_has_type_real 1 #142 #141
[attach-var-names] #143 (|r| ; |Real|)
[mk-app] #144 as_type #32 #45
[mk-app] #145 has_type #144 #45
[mk-app] #146 has_type #32 #45
[mk-app] #147 = #32 #144
[mk-app] #148 => #146 #147
[mk-app] #149 and #145 #148
[mk-app] #150 pattern #144
[mk-quant] #151 prelude_as_type 2 #150 #149
[attach-var-names] #151 (|t| ; |Type|) (|x| ; |Poly|)
[mk-app] #152 not #146
[mk-app] #153 or #152 #147
[inst-discovered] theory-solving 0x0 basic# ; #148
[mk-app] #154 = #148 #153
[instance] 0x0 #154
[attach-enode] #154 0
[end-of-instance]
[mk-app] #154 and #145 #153
[mk-quant] #155 prelude_as_type 2 #150 #154
[attach-var-names] #155 (|t| ; |Type|) (|x| ; |Poly|)
[mk-var] #156 0
[mk-app] #157 mk_fun #156
[mk-app] #158 = #157 #156
[mk-app] #159 pattern #157
[mk-quant] #160 prelude_mk_fun 1 #159 #158
[attach-var-names] #160 (|x| ; |%%Function%%|)
[mk-app] #161 %B #134
[mk-app] #162 = #128 #161
[mk-app] #163 pattern #134
[mk-quant] #164 prelude_unbox_box_bool 1 #163 #162
[attach-var-names] #164 (|x| ; |Bool|)
[mk-app] #165 I #122
[mk-app] #166 %I #165
[mk-app] #167 = #122 #166
[mk-app] #168 pattern #165
[mk-quant] #169 prelude_unbox_box_int 1 #168 #167
[attach-var-names] #169 (|x| ; |Int|)
[mk-app] #170 %R #139
[mk-app] #171 = #6 #170
[mk-app] #172 pattern #139
[mk-quant] #173 prelude_unbox_box_real 1 #172 #171
[attach-var-names] #173 (|x| ; |Real|)
[mk-app] #174 has_type #33 #135
[mk-app] #175 %B #33
[mk-app] #176 B #175
[mk-app] #177 = #33 #176
[mk-app] #178 => #174 #177
[mk-app] #179 pattern #174
[mk-quant] #180 prelude_box_unbox_bool 1 #179 #178
[attach-var-names] #180 (|x| ; |Poly|)
[mk-app] #181 not #174
[mk-app] #182 or #181 #177
[inst-discovered] theory-solving 0x0 basic# ; #178
[mk-app] #183 = #178 #182
[instance] 0x0 #183
[attach-enode] #183 0
[end-of-instance]
[mk-quant] #183 prelude_box_unbox_bool 1 #179 #182
[attach-var-names] #183 (|x| ; |Poly|)
[mk-app] #184 INT
[mk-app] #185 has_type #33 #184
[mk-app] #186 %I #33
[mk-app] #187 I #186
[mk-app] #188 = #33 #187
[mk-app] #189 => #185 #188
[mk-app] #190 pattern #185
[mk-quant] #191 prelude_box_unbox_int 1 #190 #189
[attach-var-names] #191 (|x| ; |Poly|)
[mk-app] #192 not #185
[mk-app] #193 or #192 #188
[inst-discovered] theory-solving 0x0 basic# ; #189
[mk-app] #194 = #189 #193
[instance] 0x0 #194
[attach-enode] #194 0
[end-of-instance]
[mk-quant] #194 prelude_box_unbox_int 1 #190 #193
[attach-var-names] #194 (|x| ; |Poly|)
[mk-app] #195 NAT
[mk-app] #196 has_type #33 #195
[mk-app] #197 => #196 #188
[mk-app] #198 pattern #196
[mk-quant] #199 prelude_box_unbox_nat 1 #198 #197
[attach-var-names] #199 (|x| ; |Poly|)
[mk-app] #200 not #196
[mk-app] #201 or #200 #188
[inst-discovered] theory-solving 0x0 basic# ; #197
[mk-app] #202 = #197 #201
[instance] 0x0 #202
[attach-enode] #202 0
[end-of-instance]
[mk-quant] #202 prelude_box_unbox_nat 1 #198 #201
[attach-var-names] #202 (|x| ; |Poly|)
[mk-app] #203 USIZE
[mk-app] #204 has_type #33 #203
[mk-app] #205 => #204 #188
[mk-app] #206 pattern #204
[mk-quant] #207 prelude_box_unbox_usize 1 #206 #205
[attach-var-names] #207 (|x| ; |Poly|)
[mk-app] #208 not #204
[mk-app] #209 or #208 #188
[inst-discovered] theory-solving 0x0 basic# ; #205
[mk-app] #210 = #205 #209
[instance] 0x0 #210
[attach-enode] #210 0
[end-of-instance]
[mk-quant] #210 prelude_box_unbox_usize 1 #206 #209
[attach-var-names] #210 (|x| ; |Poly|)
[mk-app] #211 ISIZE
[mk-app] #212 has_type #33 #211
[mk-app] #213 => #212 #188
[mk-app] #214 pattern #212
[mk-quant] #215 prelude_box_unbox_isize 1 #214 #213
[attach-var-names] #215 (|x| ; |Poly|)
[mk-app] #216 not #212
[mk-app] #217 or #216 #188
[inst-discovered] theory-solving 0x0 basic# ; #213
[mk-app] #218 = #213 #217
[instance] 0x0 #218
[attach-enode] #218 0
[end-of-instance]
[mk-quant] #218 prelude_box_unbox_isize 1 #214 #217
[attach-var-names] #218 (|x| ; |Poly|)
[mk-var] #219 1
[mk-app] #220 UINT #219
[mk-app] #221 has_type #33 #220
[mk-app] #222 => #221 #188
[mk-app] #223 pattern #221
[mk-quant] #224 prelude_box_unbox_uint 2 #223 #222
[attach-var-names] #224 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #225 not #221
[mk-app] #226 or #225 #188
[inst-discovered] theory-solving 0x0 basic# ; #222
[mk-app] #227 = #222 #226
[instance] 0x0 #227
[attach-enode] #227 0
[end-of-instance]
[mk-quant] #227 prelude_box_unbox_uint 2 #223 #226
[attach-var-names] #227 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #228 SINT #219
[mk-app] #229 has_type #33 #228
[mk-app] #230 => #229 #188
[mk-app] #231 pattern #229
[mk-quant] #232 prelude_box_unbox_sint 2 #231 #230
[attach-var-names] #232 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #233 not #229
[mk-app] #234 or #233 #188
[inst-discovered] theory-solving 0x0 basic# ; #230
[mk-app] #235 = #230 #234
[instance] 0x0 #235
[attach-enode] #235 0
[end-of-instance]
[mk-quant] #235 prelude_box_unbox_sint 2 #231 #234
[attach-var-names] #235 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #236 FLOAT #219
[mk-app] #237 has_type #33 #236
[mk-app] #238 => #237 #188
[mk-app] #239 pattern #237
[mk-quant] #240 prelude_box_unbox_float 2 #239 #238
[attach-var-names] #240 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #241 not #237
[mk-app] #242 or #241 #188
[inst-discovered] theory-solving 0x0 basic# ; #238
[mk-app] #243 = #238 #242
[instance] 0x0 #243
[attach-enode] #243 0
[end-of-instance]
[mk-quant] #243 prelude_box_unbox_float 2 #239 #242
[attach-var-names] #243 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #244 CHAR
[mk-app] #245 has_type #33 #244
[mk-app] #246 => #245 #188
[mk-app] #247 pattern #245
[mk-quant] #248 prelude_box_unbox_char 1 #247 #246
[attach-var-names] #248 (|x| ; |Poly|)
[mk-app] #249 not #245
[mk-app] #250 or #249 #188
[inst-discovered] theory-solving 0x0 basic# ; #246
[mk-app] #251 = #246 #250
[instance] 0x0 #251
[attach-enode] #251 0
[end-of-instance]
[mk-quant] #251 prelude_box_unbox_char 1 #247 #250
[attach-var-names] #251 (|x| ; |Poly|)
[mk-app] #252 has_type #33 #140
[mk-app] #253 %R #33
[mk-app] #254 R #253
[mk-app] #255 = #33 #254
[mk-app] #256 => #252 #255
[mk-app] #257 pattern #252
[mk-quant] #258 prelude_box_unbox_real 1 #257 #256
[attach-var-names] #258 (|x| ; |Poly|)
[mk-app] #259 not #252
[mk-app] #260 or #259 #255
[inst-discovered] theory-solving 0x0 basic# ; #256
[mk-app] #261 = #256 #260
[instance] 0x0 #261
[attach-enode] #261 0
[end-of-instance]
[mk-quant] #261 prelude_box_unbox_real 1 #257 #260
[attach-var-names] #261 (|x| ; |Poly|)
[mk-var] #262 3
[mk-var] #263 2
[mk-app] #264 = #32 #33
[mk-app] #265 ext_eq #262 #263 #32 #33
[mk-app] #266 = #264 #265
[mk-app] #267 pattern #265
[mk-quant] #268 prelude_ext_eq 4 #267 #266
[attach-var-names] #268 (|y| ; |Poly|) (|x| ; |Poly|) (|t| ; |Type|) (|deep| ; |Bool|)
[mk-app] #269 SZ
[mk-app] #270 Int
[attach-meaning] #270 arith 64
[mk-app] #271 = #269 #270
[mk-app] #272 Int
[attach-meaning] #272 arith 8
[mk-app] #273 uHi #272
[mk-app] #274 Int
[attach-meaning] #274 arith 256
[mk-app] #275 = #273 #274
[mk-app] #276 Int
[attach-meaning] #276 arith 16
[mk-app] #277 uHi #276
[mk-app] #278 Int
[attach-meaning] #278 arith 65536
[mk-app] #279 = #277 #278
[mk-app] #280 Int
[attach-meaning] #280 arith 32
[mk-app] #281 uHi #280
[mk-app] #282 Int
[attach-meaning] #282 arith 4294967296
[mk-app] #283 = #281 #282
[attach-meaning] #270 arith 64
[mk-app] #284 uHi #270
[mk-app] #285 Int
[attach-meaning] #285 arith 18446744073709551616
[mk-app] #286 = #284 #285
[mk-app] #287 Int
[attach-meaning] #287 arith 128
[mk-app] #288 uHi #287
[mk-app] #289 Int
[attach-meaning] #289 arith 1
[mk-app] #290 Int
[attach-meaning] #290 arith 340282366920938463463374607431768211455
[mk-app] #291 + #289 #290
[mk-app] #292 = #288 #291
[mk-app] #293 Int
[attach-meaning] #293 arith 340282366920938463463374607431768211456
[inst-discovered] theory-solving 0x0 arith# ; #291
[mk-app] #294 = #291 #293
[instance] 0x0 #294
[attach-enode] #294 0
[end-of-instance]
[mk-app] #294 = #288 #293
[mk-app] #295 iLo #272
[attach-meaning] #287 arith 128
[mk-app] #296 - #287
[mk-app] #297 = #295 #296
[mk-app] #298 Int
[attach-meaning] #298 arith (- 128)
[inst-discovered] theory-solving 0x0 arith# ; #296
[mk-app] #299 = #296 #298
[instance] 0x0 #299
[attach-enode] #299 0
[end-of-instance]
[mk-app] #299 = #295 #298
[attach-meaning] #276 arith 16
[mk-app] #300 iLo #276
[mk-app] #301 Int
[attach-meaning] #301 arith 32768
[mk-app] #302 - #301
[mk-app] #303 = #300 #302
[mk-app] #304 Int
[attach-meaning] #304 arith (- 32768)
[inst-discovered] theory-solving 0x0 arith# ; #302
[mk-app] #305 = #302 #304
[instance] 0x0 #305
[attach-enode] #305 0
[end-of-instance]
[mk-app] #305 = #300 #304
[attach-meaning] #280 arith 32
[mk-app] #306 iLo #280
[mk-app] #307 Int
[attach-meaning] #307 arith 2147483648
[mk-app] #308 - #307
[mk-app] #309 = #306 #308
[mk-app] #310 Int
[attach-meaning] #310 arith (- 2147483648)
[inst-discovered] theory-solving 0x0 arith# ; #308
[mk-app] #311 = #308 #310
[instance] 0x0 #311
[attach-enode] #311 0
[end-of-instance]
[mk-app] #311 = #306 #310
[attach-meaning] #270 arith 64
[mk-app] #312 iLo #270
[mk-app] #313 Int
[attach-meaning] #313 arith 9223372036854775808
[mk-app] #314 - #313
[mk-app] #315 = #312 #314
[mk-app] #316 Int
[attach-meaning] #316 arith (- 9223372036854775808)
[inst-discovered] theory-solving 0x0 arith# ; #314
[mk-app] #317 = #314 #316
[instance] 0x0 #317
[attach-enode] #317 0
[end-of-instance]
[mk-app] #317 = #312 #316
[attach-meaning] #287 arith 128
[mk-app] #318 iLo #287
[mk-app] #319 Int
[attach-meaning] #319 arith 170141183460469231731687303715884105728
[mk-app] #320 - #319
[mk-app] #321 = #318 #320
[mk-app] #322 Int
[attach-meaning] #322 arith (- 170141183460469231731687303715884105728)
[inst-discovered] theory-solving 0x0 arith# ; #320
[mk-app] #323 = #320 #322
[instance] 0x0 #323
[attach-enode] #323 0
[end-of-instance]
[mk-app] #323 = #318 #322
[mk-app] #324 iHi #272
[attach-meaning] #287 arith 128
[mk-app] #325 = #324 #287
[attach-meaning] #276 arith 16
[mk-app] #326 iHi #276
[attach-meaning] #301 arith 32768
[mk-app] #327 = #326 #301
[attach-meaning] #280 arith 32
[mk-app] #328 iHi #280
[attach-meaning] #307 arith 2147483648
[mk-app] #329 = #328 #307
[attach-meaning] #270 arith 64
[mk-app] #330 iHi #270
[attach-meaning] #313 arith 9223372036854775808
[mk-app] #331 = #330 #313
[attach-meaning] #287 arith 128
[mk-app] #332 iHi #287
[attach-meaning] #319 arith 170141183460469231731687303715884105728
[mk-app] #333 = #332 #319
[mk-app] #334 Int
[attach-meaning] #334 arith 0
[mk-app] #335 nClip #122
[mk-app] #336 <= #334 #335
[mk-app] #337 <= #334 #122
[mk-app] #338 = #122 #335
[mk-app] #339 => #337 #338
[mk-app] #340 and #336 #339
[mk-app] #341 pattern #335
[mk-quant] #342 prelude_nat_clip 1 #341 #340
[attach-var-names] #342 (|i| ; |Int|)
[mk-app] #343 Int
[attach-meaning] #343 arith (- 1)
[mk-app] #344 * #343 #335
[mk-app] #345 >= #335 #334
[inst-discovered] theory-solving 0x0 arith# ; #336
[mk-app] #343 = #336 #345
[instance] 0x0 #343
[attach-enode] #343 0
[end-of-instance]
[mk-app] #343 Int
[attach-meaning] #343 arith (- 1)
[mk-app] #344 * #343 #122
[mk-app] #346 >= #122 #334
[inst-discovered] theory-solving 0x0 arith# ; #337
[mk-app] #343 = #337 #346
[instance] 0x0 #343
[attach-enode] #343 0
[end-of-instance]
[mk-app] #343 not #346
[mk-app] #344 or #343 #338
[mk-app] #347 => #346 #338
[inst-discovered] theory-solving 0x0 basic# ; #347
[mk-app] #348 = #347 #344
[instance] 0x0 #348
[attach-enode] #348 0
[end-of-instance]
[mk-app] #347 and #345 #344
[mk-quant] #348 prelude_nat_clip 1 #341 #347
[attach-var-names] #348 (|i| ; |Int|)
[mk-app] #349 uClip #219 #122
[mk-app] #350 <= #334 #349
[mk-app] #351 uHi #219
[mk-app] #352 < #349 #351
[mk-app] #353 < #122 #351
[mk-app] #354 and #337 #353
[mk-app] #355 = #122 #349
[mk-app] #356 => #354 #355
[mk-app] #357 and #350 #352 #356
[mk-app] #358 pattern #349
[mk-quant] #359 prelude_u_clip 2 #358 #357
[attach-var-names] #359 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #360 Int
[attach-meaning] #360 arith (- 1)
[mk-app] #361 * #360 #349
[mk-app] #362 >= #349 #334
[inst-discovered] theory-solving 0x0 arith# ; #350
[mk-app] #360 = #350 #362
[instance] 0x0 #360
[attach-enode] #360 0
[end-of-instance]
[mk-app] #360 <= #351 #349
[mk-app] #361 not #360
[inst-discovered] theory-solving 0x0 arith# ; #352
[mk-app] #363 = #352 #361
[instance] 0x0 #363
[attach-enode] #363 0
[end-of-instance]
[mk-app] #363 Int
[attach-meaning] #363 arith (- 1)
[mk-app] #364 * #363 #349
[mk-app] #365 + #364 #351
[attach-meaning] #363 arith (- 1)
[mk-app] #366 * #363 #351
[mk-app] #367 + #349 #366
[mk-app] #364 >= #367 #334
[inst-discovered] theory-solving 0x0 arith# ; #360
[mk-app] #365 = #360 #364
[instance] 0x0 #365
[attach-enode] #365 0
[end-of-instance]
[mk-app] #365 not #364
[attach-meaning] #363 arith (- 1)
[mk-app] #368 * #363 #122
[inst-discovered] theory-solving 0x0 arith# ; #337
[mk-app] #368 = #337 #346
[instance] 0x0 #368
[attach-enode] #368 0
[end-of-instance]
[mk-app] #368 <= #351 #122
[mk-app] #369 not #368
[inst-discovered] theory-solving 0x0 arith# ; #353
[mk-app] #370 = #353 #369
[instance] 0x0 #370
[attach-enode] #370 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #370 * #363 #122
[mk-app] #371 + #370 #351
[attach-meaning] #363 arith (- 1)
[mk-app] #372 + #122 #366
[mk-app] #370 >= #372 #334
[inst-discovered] theory-solving 0x0 arith# ; #368
[mk-app] #371 = #368 #370
[instance] 0x0 #371
[attach-enode] #371 0
[end-of-instance]
[mk-app] #371 not #370
[mk-app] #373 and #346 #371
[mk-app] #374 not #373
[mk-app] #375 or #374 #355
[mk-app] #376 => #373 #355
[inst-discovered] theory-solving 0x0 basic# ; #376
[mk-app] #377 = #376 #375
[instance] 0x0 #377
[attach-enode] #377 0
[end-of-instance]
[mk-app] #376 and #362 #365 #375
[mk-quant] #377 prelude_u_clip 2 #358 #376
[attach-var-names] #377 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #360 iLo #219
[mk-app] #361 iClip #219 #122
[mk-app] #368 <= #360 #361
[mk-app] #369 iHi #219
[mk-app] #378 < #361 #369
[mk-app] #379 <= #360 #122
[mk-app] #380 < #122 #369
[mk-app] #381 and #379 #380
[mk-app] #382 = #122 #361
[mk-app] #383 => #381 #382
[mk-app] #384 and #368 #378 #383
[mk-app] #385 pattern #361
[mk-quant] #386 prelude_i_clip 2 #385 #384
[attach-var-names] #386 (|i| ; |Int|) (|bits| ; |Int|)
[attach-meaning] #363 arith (- 1)
[mk-app] #387 * #363 #361
[mk-app] #388 + #360 #387
[mk-app] #389 <= #388 #334
[inst-discovered] theory-solving 0x0 arith# ; #368
[mk-app] #390 = #368 #389
[instance] 0x0 #390
[attach-enode] #390 0
[end-of-instance]
[mk-app] #390 <= #369 #361
[mk-app] #391 not #390
[inst-discovered] theory-solving 0x0 arith# ; #378
[mk-app] #392 = #378 #391
[instance] 0x0 #392
[attach-enode] #392 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #392 + #387 #369
[attach-meaning] #363 arith (- 1)
[mk-app] #393 * #363 #369
[mk-app] #394 + #361 #393
[mk-app] #392 >= #394 #334
[inst-discovered] theory-solving 0x0 arith# ; #390
[mk-app] #395 = #390 #392
[instance] 0x0 #395
[attach-enode] #395 0
[end-of-instance]
[mk-app] #395 not #392
[attach-meaning] #363 arith (- 1)
[mk-app] #396 * #363 #122
[mk-app] #397 + #396 #360
[attach-meaning] #363 arith (- 1)
[mk-app] #398 * #363 #360
[mk-app] #399 + #122 #398
[mk-app] #396 >= #399 #334
[inst-discovered] theory-solving 0x0 arith# ; #379
[mk-app] #397 = #379 #396
[instance] 0x0 #397
[attach-enode] #397 0
[end-of-instance]
[mk-app] #397 <= #369 #122
[mk-app] #400 not #397
[inst-discovered] theory-solving 0x0 arith# ; #380
[mk-app] #401 = #380 #400
[instance] 0x0 #401
[attach-enode] #401 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #401 * #363 #122
[mk-app] #402 + #401 #369
[attach-meaning] #363 arith (- 1)
[mk-app] #403 + #122 #393
[mk-app] #401 >= #403 #334
[inst-discovered] theory-solving 0x0 arith# ; #397
[mk-app] #402 = #397 #401
[instance] 0x0 #402
[attach-enode] #402 0
[end-of-instance]
[mk-app] #402 not #401
[mk-app] #404 and #396 #402
[mk-app] #405 not #404
[mk-app] #406 or #405 #382
[mk-app] #407 => #404 #382
[inst-discovered] theory-solving 0x0 basic# ; #407
[mk-app] #408 = #407 #406
[instance] 0x0 #408
[attach-enode] #408 0
[end-of-instance]
[mk-app] #407 and #389 #395 #406
[mk-quant] #408 prelude_i_clip 2 #385 #407
[attach-var-names] #408 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #397 charClip #122
[mk-app] #400 <= #334 #397
[mk-app] #390 Int
[attach-meaning] #390 arith 55295
[mk-app] #391 <= #397 #390
[mk-app] #409 and #400 #391
[mk-app] #410 Int
[attach-meaning] #410 arith 57344
[mk-app] #411 <= #410 #397
[mk-app] #412 Int
[attach-meaning] #412 arith 1114111
[mk-app] #413 <= #397 #412
[mk-app] #414 and #411 #413
[mk-app] #415 or #409 #414
[attach-meaning] #390 arith 55295
[mk-app] #416 <= #122 #390
[mk-app] #417 and #337 #416
[attach-meaning] #410 arith 57344
[mk-app] #418 <= #410 #122
[attach-meaning] #412 arith 1114111
[mk-app] #419 <= #122 #412
[mk-app] #420 and #418 #419
[mk-app] #421 or #417 #420
[mk-app] #422 = #122 #397
[mk-app] #423 => #421 #422
[mk-app] #424 and #415 #423
[mk-app] #425 pattern #397
[mk-quant] #426 prelude_char_clip 1 #425 #424
[attach-var-names] #426 (|i| ; |Int|)
[attach-meaning] #363 arith (- 1)
[mk-app] #427 * #363 #397
[mk-app] #428 >= #397 #334
[inst-discovered] theory-solving 0x0 arith# ; #400
[mk-app] #427 = #400 #428
[instance] 0x0 #427
[attach-enode] #427 0
[end-of-instance]
[mk-app] #427 and #428 #391
[attach-meaning] #363 arith (- 1)
[mk-app] #429 * #363 #397
[mk-app] #430 Int
[attach-meaning] #430 arith (- 57344)
[attach-meaning] #410 arith 57344
[mk-app] #431 >= #397 #410
[inst-discovered] theory-solving 0x0 arith# ; #411
[mk-app] #429 = #411 #431
[instance] 0x0 #429
[attach-enode] #429 0
[end-of-instance]
[mk-app] #429 and #431 #413
[mk-app] #430 or #427 #429
[attach-meaning] #363 arith (- 1)
[mk-app] #432 * #363 #122
[inst-discovered] theory-solving 0x0 arith# ; #337
[mk-app] #432 = #337 #346
[instance] 0x0 #432
[attach-enode] #432 0
[end-of-instance]
[mk-app] #432 and #346 #416
[attach-meaning] #363 arith (- 1)
[mk-app] #433 * #363 #122
[mk-app] #434 Int
[attach-meaning] #434 arith (- 57344)
[attach-meaning] #410 arith 57344
[mk-app] #435 >= #122 #410
[inst-discovered] theory-solving 0x0 arith# ; #418
[mk-app] #433 = #418 #435
[instance] 0x0 #433
[attach-enode] #433 0
[end-of-instance]
[mk-app] #433 and #435 #419
[mk-app] #434 or #432 #433
[mk-app] #436 not #434
[mk-app] #437 or #436 #422
[mk-app] #438 => #434 #422
[inst-discovered] theory-solving 0x0 basic# ; #438
[mk-app] #439 = #438 #437
[instance] 0x0 #439
[attach-enode] #439 0
[end-of-instance]
[mk-app] #438 and #430 #437
[mk-quant] #439 prelude_char_clip 1 #425 #438
[attach-var-names] #439 (|i| ; |Int|)
[mk-app] #440 uInv #219 #122
[mk-app] #441 = #440 #354
[mk-app] #442 pattern #440
[mk-quant] #443 prelude_u_inv 2 #442 #441
[attach-var-names] #443 (|i| ; |Int|) (|bits| ; |Int|)
[attach-meaning] #363 arith (- 1)
[mk-app] #444 * #363 #122
[inst-discovered] theory-solving 0x0 arith# ; #337
[mk-app] #444 = #337 #346
[instance] 0x0 #444
[attach-enode] #444 0
[end-of-instance]
[mk-app] #444 <= #351 #122
[mk-app] #445 not #444
[inst-discovered] theory-solving 0x0 arith# ; #353
[mk-app] #446 = #353 #445
[instance] 0x0 #446
[attach-enode] #446 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #446 * #363 #122
[mk-app] #447 + #446 #351
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #444
[mk-app] #446 = #444 #370
[instance] 0x0 #446
[attach-enode] #446 0
[end-of-instance]
[mk-app] #446 = #440 #373
[mk-quant] #447 prelude_u_inv 2 #442 #446
[attach-var-names] #447 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #444 iInv #219 #122
[mk-app] #445 = #444 #381
[mk-app] #448 pattern #444
[mk-quant] #449 prelude_i_inv 2 #448 #445
[attach-var-names] #449 (|i| ; |Int|) (|bits| ; |Int|)
[attach-meaning] #363 arith (- 1)
[mk-app] #450 * #363 #122
[mk-app] #451 + #450 #360
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #379
[mk-app] #450 = #379 #396
[instance] 0x0 #450
[attach-enode] #450 0
[end-of-instance]
[mk-app] #450 <= #369 #122
[mk-app] #451 not #450
[inst-discovered] theory-solving 0x0 arith# ; #380
[mk-app] #452 = #380 #451
[instance] 0x0 #452
[attach-enode] #452 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #452 * #363 #122
[mk-app] #453 + #452 #369
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #450
[mk-app] #452 = #450 #401
[instance] 0x0 #452
[attach-enode] #452 0
[end-of-instance]
[mk-app] #452 = #444 #404
[mk-quant] #453 prelude_i_inv 2 #448 #452
[attach-var-names] #453 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #450 charInv #122
[attach-meaning] #390 arith 55295
[attach-meaning] #410 arith 57344
[attach-meaning] #412 arith 1114111
[mk-app] #451 = #450 #421
[mk-app] #454 pattern #450
[mk-quant] #455 prelude_char_inv 1 #454 #451
[attach-var-names] #455 (|i| ; |Int|)
[attach-meaning] #363 arith (- 1)
[mk-app] #456 * #363 #122
[inst-discovered] theory-solving 0x0 arith# ; #337
[mk-app] #456 = #337 #346
[instance] 0x0 #456
[attach-enode] #456 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #456 * #363 #122
[mk-app] #457 Int
[attach-meaning] #457 arith (- 57344)
[attach-meaning] #410 arith 57344
[inst-discovered] theory-solving 0x0 arith# ; #418
[mk-app] #456 = #418 #435
[instance] 0x0 #456
[attach-enode] #456 0
[end-of-instance]
[mk-app] #456 = #450 #434
[mk-quant] #457 prelude_char_inv 1 #454 #456
[attach-var-names] #457 (|i| ; |Int|)
[mk-app] #458 has_type #165 #184
[mk-app] #459 pattern #458
[mk-quant] #460 prelude_has_type_int 1 #459 #458
[attach-var-names] #460 (|x| ; |Int|)
[mk-app] #461 has_type #165 #195
[mk-app] #462 => #337 #461
[mk-app] #463 pattern #461
[mk-quant] #464 prelude_has_type_nat 1 #463 #462
[attach-var-names] #464 (|x| ; |Int|)
[attach-meaning] #363 arith (- 1)
[mk-app] #465 * #363 #122
[inst-discovered] theory-solving 0x0 arith# ; #337
[mk-app] #465 = #337 #346
[instance] 0x0 #465
[attach-enode] #465 0
[end-of-instance]
[mk-app] #465 or #343 #461
[mk-app] #466 => #346 #461
[inst-discovered] theory-solving 0x0 basic# ; #466
[mk-app] #467 = #466 #465
[instance] 0x0 #467
[attach-enode] #467 0
[end-of-instance]
[mk-quant] #466 prelude_has_type_nat 1 #463 #465
[attach-var-names] #466 (|x| ; |Int|)
[mk-app] #467 uInv #269 #122
[mk-app] #468 has_type #165 #203
[mk-app] #469 => #467 #468
[mk-app] #470 pattern #468
[mk-quant] #471 prelude_has_type_usize 1 #470 #469
[attach-var-names] #471 (|x| ; |Int|)
[mk-app] #472 not #467
[mk-app] #473 or #472 #468
[inst-discovered] theory-solving 0x0 basic# ; #469
[mk-app] #474 = #469 #473
[instance] 0x0 #474
[attach-enode] #474 0
[end-of-instance]
[mk-quant] #474 prelude_has_type_usize 1 #470 #473
[attach-var-names] #474 (|x| ; |Int|)
[mk-app] #475 iInv #269 #122
[mk-app] #476 has_type #165 #211
[mk-app] #477 => #475 #476
[mk-app] #478 pattern #476
[mk-quant] #479 prelude_has_type_isize 1 #478 #477
[attach-var-names] #479 (|x| ; |Int|)
[mk-app] #480 not #475
[mk-app] #481 or #480 #476
[inst-discovered] theory-solving 0x0 basic# ; #477
[mk-app] #482 = #477 #481
[instance] 0x0 #482
[attach-enode] #482 0
[end-of-instance]
[mk-quant] #482 prelude_has_type_isize 1 #478 #481
[attach-var-names] #482 (|x| ; |Int|)
[mk-app] #483 has_type #165 #220
[mk-app] #484 => #440 #483
[mk-app] #485 pattern #483
[mk-quant] #486 prelude_has_type_uint 2 #485 #484
[attach-var-names] #486 (|x| ; |Int|) (|bits| ; |Int|)
[mk-app] #487 not #440
[mk-app] #488 or #487 #483
[inst-discovered] theory-solving 0x0 basic# ; #484
[mk-app] #489 = #484 #488
[instance] 0x0 #489
[attach-enode] #489 0
[end-of-instance]
[mk-quant] #489 prelude_has_type_uint 2 #485 #488
[attach-var-names] #489 (|x| ; |Int|) (|bits| ; |Int|)
[mk-app] #490 has_type #165 #228
[mk-app] #491 => #444 #490
[mk-app] #492 pattern #490
[mk-quant] #493 prelude_has_type_sint 2 #492 #491
[attach-var-names] #493 (|x| ; |Int|) (|bits| ; |Int|)
[mk-app] #494 not #444
[mk-app] #495 or #494 #490
[inst-discovered] theory-solving 0x0 basic# ; #491
[mk-app] #496 = #491 #495
[instance] 0x0 #496
[attach-enode] #496 0
[end-of-instance]
[mk-quant] #496 prelude_has_type_sint 2 #492 #495
[attach-var-names] #496 (|x| ; |Int|) (|bits| ; |Int|)
[mk-app] #497 has_type #165 #236
[mk-app] #498 => #440 #497
[mk-app] #499 pattern #497
[mk-quant] #500 prelude_has_type_float 2 #499 #498
[attach-var-names] #500 (|x| ; |Int|) (|bits| ; |Int|)
[mk-app] #501 or #487 #497
[inst-discovered] theory-solving 0x0 basic# ; #498
[mk-app] #502 = #498 #501
[instance] 0x0 #502
[attach-enode] #502 0
[end-of-instance]
[mk-quant] #502 prelude_has_type_float 2 #499 #501
[attach-var-names] #502 (|x| ; |Int|) (|bits| ; |Int|)
[mk-app] #503 has_type #165 #244
[mk-app] #504 => #450 #503
[mk-app] #505 pattern #503
[mk-quant] #506 prelude_has_type_char 1 #505 #504
[attach-var-names] #506 (|x| ; |Int|)
[mk-app] #507 not #450
[mk-app] #508 or #507 #503
[inst-discovered] theory-solving 0x0 basic# ; #504
[mk-app] #509 = #504 #508
[instance] 0x0 #509
[attach-enode] #509 0
[end-of-instance]
[mk-quant] #509 prelude_has_type_char 1 #505 #508
[attach-var-names] #509 (|x| ; |Int|)
[mk-app] #510 <= #334 #186
[mk-app] #511 => #196 #510
[mk-quant] #512 prelude_unbox_int 1 #198 #511
[attach-var-names] #512 (|x| ; |Poly|)
[attach-meaning] #363 arith (- 1)
[mk-app] #513 * #363 #186
[mk-app] #514 >= #186 #334
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #513 = #510 #514
[instance] 0x0 #513
[attach-enode] #513 0
[end-of-instance]
[mk-app] #513 or #200 #514
[mk-app] #515 => #196 #514
[inst-discovered] theory-solving 0x0 basic# ; #515
[mk-app] #516 = #515 #513
[instance] 0x0 #516
[attach-enode] #516 0
[end-of-instance]
[mk-quant] #515 prelude_unbox_int 1 #198 #513
[attach-var-names] #515 (|x| ; |Poly|)
[mk-app] #516 uInv #269 #186
[mk-app] #517 => #204 #516
[mk-quant] #518 prelude_unbox_usize 1 #206 #517
[attach-var-names] #518 (|x| ; |Poly|)
[mk-app] #519 or #208 #516
[inst-discovered] theory-solving 0x0 basic# ; #517
[mk-app] #520 = #517 #519
[instance] 0x0 #520
[attach-enode] #520 0
[end-of-instance]
[mk-quant] #520 prelude_unbox_usize 1 #206 #519
[attach-var-names] #520 (|x| ; |Poly|)
[mk-app] #521 charInv #186
[mk-app] #522 => #245 #521
[mk-quant] #523 prelude_unbox_char 1 #247 #522
[attach-var-names] #523 (|x| ; |Poly|)
[mk-app] #524 or #249 #521
[inst-discovered] theory-solving 0x0 basic# ; #522
[mk-app] #525 = #522 #524
[instance] 0x0 #525
[attach-enode] #525 0
[end-of-instance]
[mk-quant] #525 prelude_unbox_char 1 #247 #524
[attach-var-names] #525 (|x| ; |Poly|)
[mk-app] #526 iInv #269 #186
[mk-app] #527 => #212 #526
[mk-quant] #528 prelude_unbox_isize 1 #214 #527
[attach-var-names] #528 (|x| ; |Poly|)
[mk-app] #529 or #216 #526
[inst-discovered] theory-solving 0x0 basic# ; #527
[mk-app] #530 = #527 #529
[instance] 0x0 #530
[attach-enode] #530 0
[end-of-instance]
[mk-quant] #530 prelude_unbox_isize 1 #214 #529
[attach-var-names] #530 (|x| ; |Poly|)
[mk-app] #531 uInv #219 #186
[mk-app] #532 => #221 #531
[mk-quant] #533 prelude_unbox_uint 2 #223 #532
[attach-var-names] #533 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #534 or #225 #531
[inst-discovered] theory-solving 0x0 basic# ; #532
[mk-app] #535 = #532 #534
[instance] 0x0 #535
[attach-enode] #535 0
[end-of-instance]
[mk-quant] #535 prelude_unbox_uint 2 #223 #534
[attach-var-names] #535 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #536 iInv #219 #186
[mk-app] #537 => #229 #536
[mk-quant] #538 prelude_unbox_sint 2 #231 #537
[attach-var-names] #538 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #539 or #233 #536
[inst-discovered] theory-solving 0x0 basic# ; #537
[mk-app] #540 = #537 #539
[instance] 0x0 #540
[attach-enode] #540 0
[end-of-instance]
[mk-quant] #540 prelude_unbox_sint 2 #231 #539
[attach-var-names] #540 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #541 => #237 #531
[mk-quant] #542 prelude_unbox_float 2 #239 #541
[attach-var-names] #542 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #543 or #241 #531
[inst-discovered] theory-solving 0x0 basic# ; #541
[mk-app] #544 = #541 #543
[instance] 0x0 #544
[attach-enode] #544 0
[end-of-instance]
[mk-quant] #544 prelude_unbox_float 2 #239 #543
[attach-var-names] #544 (|x| ; |Poly|) (|bits| ; |Int|)
[mk-app] #545 Add #219 #122
[mk-app] #546 + #219 #122
[mk-app] #547 = #545 #546
[mk-app] #548 pattern #545
[mk-quant] #549 prelude_add 2 #548 #547
[attach-var-names] #549 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #550 + #122 #219
[inst-discovered] theory-solving 0x0 arith# ; #546
[mk-app] #551 = #546 #550
[instance] 0x0 #551
[attach-enode] #551 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #551 * #363 #122
[attach-meaning] #363 arith (- 1)
[mk-app] #552 * #363 #219
[mk-app] #553 + #551 #552 #545
[attach-meaning] #363 arith (- 1)
[mk-app] #554 * #363 #545
[mk-app] #555 + #122 #219 #554
[mk-app] #551 = #555 #334
[mk-app] #552 = #545 #550
[inst-discovered] theory-solving 0x0 arith# ; #552
[mk-app] #553 = #552 #551
[instance] 0x0 #553
[attach-enode] #553 0
[end-of-instance]
[mk-quant] #550 prelude_add 2 #548 #551
[attach-var-names] #550 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #552 Sub #219 #122
[mk-app] #553 - #219 #122
[mk-app] #556 = #552 #553
[mk-app] #557 pattern #552
[mk-quant] #558 prelude_sub 2 #557 #556
[attach-var-names] #558 (|y| ; |Int|) (|x| ; |Int|)
[attach-meaning] #363 arith (- 1)
[mk-app] #559 * #363 #122
[mk-app] #560 + #219 #559
[inst-discovered] theory-solving 0x0 arith# ; #553
[mk-app] #561 = #553 #560
[instance] 0x0 #561
[attach-enode] #561 0
[end-of-instance]
[mk-app] #561 + #559 #219
[inst-discovered] theory-solving 0x0 arith# ; #560
[mk-app] #562 = #560 #561
[instance] 0x0 #562
[attach-enode] #562 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #562 * #363 #219
[mk-app] #563 + #122 #562 #552
[mk-app] #564 = #563 #334
[mk-app] #565 = #552 #561
[inst-discovered] theory-solving 0x0 arith# ; #565
[mk-app] #566 = #565 #564
[instance] 0x0 #566
[attach-enode] #566 0
[end-of-instance]
[mk-quant] #565 prelude_sub 2 #557 #564
[attach-var-names] #565 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #559 Mul #219 #122
[mk-app] #561 * #219 #122
[mk-app] #560 = #559 #561
[mk-app] #566 pattern #559
[mk-quant] #567 prelude_mul 2 #566 #560
[attach-var-names] #567 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #568 * #122 #219
[inst-discovered] theory-solving 0x0 arith# ; #561
[mk-app] #569 = #561 #568
[instance] 0x0 #569
[attach-enode] #569 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #569 * #363 #568
[mk-app] #570 + #559 #569
[mk-app] #571 = #570 #334
[mk-app] #572 = #559 #568
[inst-discovered] theory-solving 0x0 arith# ; #572
[mk-app] #573 = #572 #571
[instance] 0x0 #573
[attach-enode] #573 0
[end-of-instance]
[mk-quant] #572 prelude_mul 2 #566 #571
[attach-var-names] #572 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #573 EucDiv #219 #122
[mk-app] #574 div #219 #122
[mk-app] #575 = #573 #574
[mk-app] #576 pattern #573
[mk-quant] #577 prelude_eucdiv 2 #576 #575
[attach-var-names] #577 (|y| ; |Int|) (|x| ; |Int|)
[attach-meaning] #363 arith (- 1)
[mk-app] #578 * #363 #574
[mk-app] #579 + #573 #578
[mk-app] #580 = #579 #334
[inst-discovered] theory-solving 0x0 arith# ; #575
[mk-app] #581 = #575 #580
[instance] 0x0 #581
[attach-enode] #581 0
[end-of-instance]
[mk-quant] #581 prelude_eucdiv 2 #576 #580
[attach-var-names] #581 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #582 EucMod #219 #122
[mk-app] #583 mod #219 #122
[mk-app] #584 = #582 #583
[mk-app] #585 pattern #582
[mk-quant] #586 prelude_eucmod 2 #585 #584
[attach-var-names] #586 (|y| ; |Int|) (|x| ; |Int|)
[attach-meaning] #363 arith (- 1)
[mk-app] #587 * #363 #583
[mk-app] #588 + #582 #587
[mk-app] #589 = #588 #334
[inst-discovered] theory-solving 0x0 arith# ; #584
[mk-app] #590 = #584 #589
[instance] 0x0 #590
[attach-enode] #590 0
[end-of-instance]
[mk-quant] #590 prelude_eucmod 2 #585 #589
[attach-var-names] #590 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #591 RAdd #7 #6
[mk-app] #592 + #7 #6
[mk-app] #593 = #591 #592
[mk-app] #594 pattern #591
[mk-quant] #595 prelude_radd 2 #594 #593
[attach-var-names] #595 (|y| ; |Real|) (|x| ; |Real|)
[mk-app] #596 + #6 #7
[inst-discovered] theory-solving 0x0 arith# ; #592
[mk-app] #597 = #592 #596
[instance] 0x0 #597
[attach-enode] #597 0
[end-of-instance]
[mk-app] #597 Real
[attach-meaning] #597 arith (- 1)
[mk-app] #598 * #597 #6
[attach-meaning] #597 arith (- 1)
[mk-app] #599 * #597 #7
[mk-app] #600 Real
[attach-meaning] #600 arith 0
[mk-app] #601 + #598 #599 #591
[attach-meaning] #597 arith (- 1)
[mk-app] #602 * #597 #591
[mk-app] #603 + #6 #7 #602
[mk-app] #598 = #603 #600
[mk-app] #599 = #591 #596
[inst-discovered] theory-solving 0x0 arith# ; #599
[mk-app] #601 = #599 #598
[instance] 0x0 #601
[attach-enode] #601 0
[end-of-instance]
[mk-quant] #596 prelude_radd 2 #594 #598
[attach-var-names] #596 (|y| ; |Real|) (|x| ; |Real|)
[mk-app] #599 RSub #7 #6
[mk-app] #601 - #7 #6
[mk-app] #604 = #599 #601
[mk-app] #605 pattern #599
[mk-quant] #606 prelude_rsub 2 #605 #604
[attach-var-names] #606 (|y| ; |Real|) (|x| ; |Real|)
[attach-meaning] #597 arith (- 1)
[mk-app] #607 * #597 #6
[mk-app] #608 + #7 #607
[inst-discovered] theory-solving 0x0 arith# ; #601
[mk-app] #609 = #601 #608
[instance] 0x0 #609
[attach-enode] #609 0
[end-of-instance]
[mk-app] #609 + #607 #7
[inst-discovered] theory-solving 0x0 arith# ; #608
[mk-app] #610 = #608 #609
[instance] 0x0 #610
[attach-enode] #610 0
[end-of-instance]
[attach-meaning] #597 arith (- 1)
[mk-app] #610 * #597 #7
[mk-app] #611 + #6 #610 #599
[mk-app] #612 = #611 #600
[mk-app] #613 = #599 #609
[inst-discovered] theory-solving 0x0 arith# ; #613
[mk-app] #614 = #613 #612
[instance] 0x0 #614
[attach-enode] #614 0
[end-of-instance]
[mk-quant] #613 prelude_rsub 2 #605 #612
[attach-var-names] #613 (|y| ; |Real|) (|x| ; |Real|)
[mk-app] #607 RMul #7 #6
[mk-app] #609 * #7 #6
[mk-app] #608 = #607 #609
[mk-app] #614 pattern #607
[mk-quant] #615 prelude_rmul 2 #614 #608
[attach-var-names] #615 (|y| ; |Real|) (|x| ; |Real|)
[mk-app] #616 * #6 #7
[inst-discovered] theory-solving 0x0 arith# ; #609
[mk-app] #617 = #609 #616
[instance] 0x0 #617
[attach-enode] #617 0
[end-of-instance]
[attach-meaning] #597 arith (- 1)
[mk-app] #617 * #597 #616
[mk-app] #618 + #607 #617
[mk-app] #619 = #618 #600
[mk-app] #620 = #607 #616
[inst-discovered] theory-solving 0x0 arith# ; #620
[mk-app] #621 = #620 #619
[instance] 0x0 #621
[attach-enode] #621 0
[end-of-instance]
[mk-quant] #620 prelude_rmul 2 #614 #619
[attach-var-names] #620 (|y| ; |Real|) (|x| ; |Real|)
[mk-app] #621 RDiv #7 #6
[mk-app] #622 / #7 #6
[mk-app] #623 = #621 #622
[mk-app] #624 pattern #621
[mk-quant] #625 prelude_rdiv 2 #624 #623
[attach-var-names] #625 (|y| ; |Real|) (|x| ; |Real|)
[attach-meaning] #597 arith (- 1)
[mk-app] #626 * #597 #622
[mk-app] #627 + #621 #626
[mk-app] #628 = #627 #600
[inst-discovered] theory-solving 0x0 arith# ; #623
[mk-app] #629 = #623 #628
[instance] 0x0 #629
[attach-enode] #629 0
[end-of-instance]
[mk-quant] #629 prelude_rdiv 2 #624 #628
[attach-var-names] #629 (|y| ; |Real|) (|x| ; |Real|)
[mk-app] #630 <= #334 #219
[mk-app] #631 and #630 #337
[mk-app] #632 <= #334 #559
[mk-app] #633 => #631 #632
[mk-quant] #634 prelude_mul_nats 2 #566 #633
[attach-var-names] #634 (|y| ; |Int|) (|x| ; |Int|)
[attach-meaning] #363 arith (- 1)
[mk-app] #635 >= #219 #334
[inst-discovered] theory-solving 0x0 arith# ; #630
[mk-app] #636 = #630 #635
[instance] 0x0 #636
[attach-enode] #636 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #636 * #363 #122
[inst-discovered] theory-solving 0x0 arith# ; #337
[mk-app] #636 = #337 #346
[instance] 0x0 #636
[attach-enode] #636 0
[end-of-instance]
[mk-app] #636 and #635 #346
[attach-meaning] #363 arith (- 1)
[mk-app] #637 * #363 #559
[mk-app] #638 >= #559 #334
[inst-discovered] theory-solving 0x0 arith# ; #632
[mk-app] #637 = #632 #638
[instance] 0x0 #637
[attach-enode] #637 0
[end-of-instance]
[mk-app] #637 not #636
[mk-app] #639 or #637 #638
[mk-app] #640 => #636 #638
[inst-discovered] theory-solving 0x0 basic# ; #640
[mk-app] #641 = #640 #639
[instance] 0x0 #641
[attach-enode] #641 0
[end-of-instance]
[mk-quant] #640 prelude_mul_nats 2 #566 #639
[attach-var-names] #640 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #641 < #334 #122
[mk-app] #642 and #630 #641
[mk-app] #643 <= #334 #573
[mk-app] #644 <= #573 #219
[mk-app] #645 and #643 #644
[mk-app] #646 => #642 #645
[mk-quant] #647 prelude_div_unsigned_in_bounds 2 #576 #646
[attach-var-names] #647 (|y| ; |Int|) (|x| ; |Int|)
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #630
[mk-app] #648 = #630 #635
[instance] 0x0 #648
[attach-enode] #648 0
[end-of-instance]
[mk-app] #648 <= #122 #334
[mk-app] #649 not #648
[inst-discovered] theory-solving 0x0 arith# ; #641
[mk-app] #650 = #641 #649
[instance] 0x0 #650
[attach-enode] #650 0
[end-of-instance]
[mk-app] #650 and #635 #649
[attach-meaning] #363 arith (- 1)
[mk-app] #651 * #363 #573
[mk-app] #652 >= #573 #334
[inst-discovered] theory-solving 0x0 arith# ; #643
[mk-app] #651 = #643 #652
[instance] 0x0 #651
[attach-enode] #651 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #651 + #562 #573
[attach-meaning] #363 arith (- 1)
[mk-app] #653 * #363 #573
[mk-app] #654 + #219 #653
[mk-app] #651 >= #654 #334
[inst-discovered] theory-solving 0x0 arith# ; #644
[mk-app] #655 = #644 #651
[instance] 0x0 #655
[attach-enode] #655 0
[end-of-instance]
[mk-app] #655 and #652 #651
[mk-app] #656 not #650
[mk-app] #657 or #656 #655
[mk-app] #658 => #650 #655
[inst-discovered] theory-solving 0x0 basic# ; #658
[mk-app] #659 = #658 #657
[instance] 0x0 #659
[attach-enode] #659 0
[end-of-instance]
[mk-quant] #658 prelude_div_unsigned_in_bounds 2 #576 #657
[attach-var-names] #658 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #659 <= #334 #582
[mk-app] #660 < #582 #122
[mk-app] #661 and #659 #660
[mk-app] #662 => #642 #661
[mk-quant] #663 prelude_mod_unsigned_in_bounds 2 #585 #662
[attach-var-names] #663 (|y| ; |Int|) (|x| ; |Int|)
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #630
[mk-app] #664 = #630 #635
[instance] 0x0 #664
[attach-enode] #664 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 arith# ; #641
[mk-app] #664 = #641 #649
[instance] 0x0 #664
[attach-enode] #664 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #664 * #363 #582
[mk-app] #665 >= #582 #334
[inst-discovered] theory-solving 0x0 arith# ; #659
[mk-app] #664 = #659 #665
[instance] 0x0 #664
[attach-enode] #664 0
[end-of-instance]
[mk-app] #664 <= #122 #582
[mk-app] #666 not #664
[inst-discovered] theory-solving 0x0 arith# ; #660
[mk-app] #667 = #660 #666
[instance] 0x0 #667
[attach-enode] #667 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #667 * #363 #582
[mk-app] #668 + #122 #667
[mk-app] #669 <= #668 #334
[inst-discovered] theory-solving 0x0 arith# ; #664
[mk-app] #670 = #664 #669
[instance] 0x0 #670
[attach-enode] #670 0
[end-of-instance]
[mk-app] #670 not #669
[mk-app] #671 and #665 #670
[mk-app] #672 or #656 #671
[mk-app] #673 => #650 #671
[inst-discovered] theory-solving 0x0 basic# ; #673
[mk-app] #674 = #673 #672
[instance] 0x0 #674
[attach-enode] #674 0
[end-of-instance]
[mk-quant] #673 prelude_mod_unsigned_in_bounds 2 #585 #672
[attach-var-names] #673 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #664 %I #43
[mk-app] #666 uInv #122 #664
[mk-app] #674 %I #32
[mk-app] #675 uInv #122 #674
[mk-app] #676 and #666 #675
[mk-app] #677 bitxor #43 #32
[mk-app] #678 uInv #122 #677
[mk-app] #679 => #676 #678
[mk-app] #680 uClip #122 #677
[mk-app] #681 pattern #680
[mk-quant] #682 prelude_bit_xor_u_inv 3 #681 #679
[attach-var-names] #682 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #683 not #676
[mk-app] #684 or #683 #678
[inst-discovered] theory-solving 0x0 basic# ; #679
[mk-app] #685 = #679 #684
[instance] 0x0 #685
[attach-enode] #685 0
[end-of-instance]
[mk-quant] #685 prelude_bit_xor_u_inv 3 #681 #684
[attach-var-names] #685 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #686 iInv #122 #664
[mk-app] #687 iInv #122 #674
[mk-app] #688 and #686 #687
[mk-app] #689 iInv #122 #677
[mk-app] #690 => #688 #689
[mk-app] #691 iClip #122 #677
[mk-app] #692 pattern #691
[mk-quant] #693 prelude_bit_xor_i_inv 3 #692 #690
[attach-var-names] #693 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #694 not #688
[mk-app] #695 or #694 #689
[inst-discovered] theory-solving 0x0 basic# ; #690
[mk-app] #696 = #690 #695
[instance] 0x0 #696
[attach-enode] #696 0
[end-of-instance]
[mk-quant] #696 prelude_bit_xor_i_inv 3 #692 #695
[attach-var-names] #696 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #697 bitor #43 #32
[mk-app] #698 uInv #122 #697
[mk-app] #699 => #676 #698
[mk-app] #700 uClip #122 #697
[mk-app] #701 pattern #700
[mk-quant] #702 prelude_bit_or_u_inv 3 #701 #699
[attach-var-names] #702 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #703 or #683 #698
[inst-discovered] theory-solving 0x0 basic# ; #699
[mk-app] #704 = #699 #703
[instance] 0x0 #704
[attach-enode] #704 0
[end-of-instance]
[mk-quant] #704 prelude_bit_or_u_inv 3 #701 #703
[attach-var-names] #704 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #705 iInv #122 #697
[mk-app] #706 => #688 #705
[mk-app] #707 iClip #122 #697
[mk-app] #708 pattern #707
[mk-quant] #709 prelude_bit_or_i_inv 3 #708 #706
[attach-var-names] #709 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #710 or #694 #705
[inst-discovered] theory-solving 0x0 basic# ; #706
[mk-app] #711 = #706 #710
[instance] 0x0 #711
[attach-enode] #711 0
[end-of-instance]
[mk-quant] #711 prelude_bit_or_i_inv 3 #708 #710
[attach-var-names] #711 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #712 bitand #43 #32
[mk-app] #713 uInv #122 #712
[mk-app] #714 => #676 #713
[mk-app] #715 uClip #122 #712
[mk-app] #716 pattern #715
[mk-quant] #717 prelude_bit_and_u_inv 3 #716 #714
[attach-var-names] #717 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #718 or #683 #713
[inst-discovered] theory-solving 0x0 basic# ; #714
[mk-app] #719 = #714 #718
[instance] 0x0 #719
[attach-enode] #719 0
[end-of-instance]
[mk-quant] #719 prelude_bit_and_u_inv 3 #716 #718
[attach-var-names] #719 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #720 iInv #122 #712
[mk-app] #721 => #688 #720
[mk-app] #722 iClip #122 #712
[mk-app] #723 pattern #722
[mk-quant] #724 prelude_bit_and_i_inv 3 #723 #721
[attach-var-names] #724 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #725 or #694 #720
[inst-discovered] theory-solving 0x0 basic# ; #721
[mk-app] #726 = #721 #725
[instance] 0x0 #726
[attach-enode] #726 0
[end-of-instance]
[mk-quant] #726 prelude_bit_and_i_inv 3 #723 #725
[attach-var-names] #726 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #727 <= #334 #674
[mk-app] #728 and #666 #727
[mk-app] #729 bitshr #43 #32
[mk-app] #730 uInv #122 #729
[mk-app] #731 => #728 #730
[mk-app] #732 uClip #122 #729
[mk-app] #733 pattern #732
[mk-quant] #734 prelude_bit_shr_u_inv 3 #733 #731
[attach-var-names] #734 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[attach-meaning] #363 arith (- 1)
[mk-app] #735 * #363 #674
[mk-app] #736 >= #674 #334
[inst-discovered] theory-solving 0x0 arith# ; #727
[mk-app] #735 = #727 #736
[instance] 0x0 #735
[attach-enode] #735 0
[end-of-instance]
[mk-app] #735 and #666 #736
[mk-app] #737 not #735
[mk-app] #738 or #737 #730
[mk-app] #739 => #735 #730
[inst-discovered] theory-solving 0x0 basic# ; #739
[mk-app] #740 = #739 #738
[instance] 0x0 #740
[attach-enode] #740 0
[end-of-instance]
[mk-quant] #739 prelude_bit_shr_u_inv 3 #733 #738
[attach-var-names] #739 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #740 and #686 #727
[mk-app] #741 iInv #122 #729
[mk-app] #742 => #740 #741
[mk-app] #743 iClip #122 #729
[mk-app] #744 pattern #743
[mk-quant] #745 prelude_bit_shr_i_inv 3 #744 #742
[attach-var-names] #745 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[attach-meaning] #363 arith (- 1)
[mk-app] #746 * #363 #674
[inst-discovered] theory-solving 0x0 arith# ; #727
[mk-app] #746 = #727 #736
[instance] 0x0 #746
[attach-enode] #746 0
[end-of-instance]
[mk-app] #746 and #686 #736
[mk-app] #747 not #746
[mk-app] #748 or #747 #741
[mk-app] #749 => #746 #741
[inst-discovered] theory-solving 0x0 basic# ; #749
[mk-app] #750 = #749 #748
[instance] 0x0 #750
[attach-enode] #750 0
[end-of-instance]
[mk-quant] #749 prelude_bit_shr_i_inv 3 #744 #748
[attach-var-names] #749 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #750 = #122 #334
[mk-app] #751 not #750
[mk-app] #752 singular_mod #219 #122
[mk-app] #753 = #582 #752
[mk-app] #754 => #751 #753
[mk-app] #755 pattern #752
[mk-quant] #756 prelude_singularmod 2 #755 #754
[attach-var-names] #756 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #757 or #750 #753
[inst-discovered] theory-solving 0x0 basic# ; #754
[mk-app] #758 = #754 #757
[instance] 0x0 #758
[attach-enode] #758 0
[end-of-instance]
[mk-quant] #758 prelude_singularmod 2 #755 #757
[attach-var-names] #758 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #759 check_decrease_height #43 #32 #128
[mk-app] #760 height #43
[mk-app] #761 height #32
[mk-app] #762 height_lt #760 #761
[mk-app] #763 = #760 #761
[mk-app] #764 and #763 #128
[mk-app] #765 or #762 #764
[mk-app] #766 = #759 #765
[mk-app] #767 pattern #759
[mk-quant] #768 prelude_check_decrease_height 3 #767 #766
[attach-var-names] #768 (|otherwise| ; |Bool|) (|prev| ; |Poly|) (|cur| ; |Poly|)
[mk-app] #769 I #219
[mk-app] #770 height #769
[mk-app] #771 height #165
[mk-app] #772 height_lt #770 #771
[mk-app] #773 < #219 #122
[mk-app] #774 and #630 #773
[mk-app] #775 = #772 #774
[mk-app] #776 pattern #772
[mk-quant] #777 prelude_check_decrease_int_height 2 #776 #775
[attach-var-names] #777 (|prev| ; |Int|) (|cur| ; |Int|)
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #630
[mk-app] #778 = #630 #635
[instance] 0x0 #778
[attach-enode] #778 0
[end-of-instance]
[mk-app] #778 <= #122 #219
[mk-app] #779 not #778
[inst-discovered] theory-solving 0x0 arith# ; #773
[mk-app] #780 = #773 #779
[instance] 0x0 #780
[attach-enode] #780 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #780 + #122 #562
[mk-app] #781 <= #780 #334
[inst-discovered] theory-solving 0x0 arith# ; #778
[mk-app] #782 = #778 #781
[instance] 0x0 #782
[attach-enode] #782 0
[end-of-instance]
[mk-app] #782 not #781
[mk-app] #783 and #635 #782
[mk-app] #784 = #772 #783
[mk-quant] #785 prelude_check_decrease_int_height 2 #776 #784
[attach-var-names] #785 (|prev| ; |Int|) (|cur| ; |Int|)
[mk-var] #778 1
[mk-var] #779 0
[mk-app] #786 height_lt #778 #779
[mk-app] #787 partial-order #778 #779
[mk-app] #788 = #778 #779
[mk-app] #789 not #788
[mk-app] #790 and #787 #789
[mk-app] #791 = #786 #790
[mk-app] #792 pattern #786
[mk-quant] #793 prelude_height_lt 2 #792 #791
[attach-var-names] #793 (|y| ; |Height|) (|x| ; |Height|)
[mk-app] #794 fuel%vstd!std_specs.iter.impl&%2.obeys_prophetic_iter_laws.
[mk-app] #795 fuel%vstd!std_specs.iter.impl&%2.remaining.
[mk-app] #796 fuel%vstd!std_specs.iter.impl&%2.will_return_none.
[mk-app] #797 fuel%vstd!std_specs.iter.impl&%2.decrease.
[mk-app] #798 fuel%vstd!std_specs.iter.impl&%2.peek.
[mk-app] #799 fuel%vstd!std_specs.iter.impl&%11.seq.
[mk-app] #800 fuel%vstd!std_specs.iter.impl&%11.index.
[mk-app] #801 fuel%vstd!std_specs.iter.impl&%11.wf.
[mk-app] #802 fuel%vstd!std_specs.iter.trigger_peek_implications.
[mk-app] #803 fuel%vstd!std_specs.option.impl&%0.arrow_0.
[mk-app] #804 fuel%vstd!std_specs.option.is_some.
[mk-app] #805 fuel%vstd!std_specs.option.is_none.
[mk-app] #806 fuel%vstd!std_specs.option.spec_unwrap.
[mk-app] #807 fuel%vstd!std_specs.option.spec_unwrap_or.
[mk-app] #808 fuel%vstd!std_specs.range.impl&%3.obeys_prophetic_iter_laws.
[mk-app] #809 fuel%vstd!std_specs.range.impl&%3.remaining.
[mk-app] #810 fuel%vstd!std_specs.range.impl&%3.decrease.
[mk-app] #811 fuel%vstd!std_specs.range.impl&%3.peek.
[mk-app] #812 fuel%vstd!std_specs.range.impl&%19.spec_is_lt.
[mk-app] #813 fuel%vstd!std_specs.range.impl&%19.spec_steps_between_int.
[mk-app] #814 fuel%vstd!std_specs.range.impl&%19.spec_forward_checked.
[mk-app] #815 fuel%vstd!std_specs.range.impl&%19.spec_forward_checked_int.
[mk-app] #816 fuel%vstd!std_specs.range.axiom_spec_range_next_u8.
[mk-app] #817 fuel%vstd!std_specs.range.impl&%21.spec_is_lt.
[mk-app] #818 fuel%vstd!std_specs.range.impl&%21.spec_steps_between_int.
[mk-app] #819 fuel%vstd!std_specs.range.impl&%21.spec_forward_checked.
[mk-app] #820 fuel%vstd!std_specs.range.impl&%21.spec_forward_checked_int.
[mk-app] #821 fuel%vstd!std_specs.range.axiom_spec_range_next_u32.
[mk-app] #822 fuel%vstd!std_specs.range.impl&%24.spec_is_lt.
[mk-app] #823 fuel%vstd!std_specs.range.impl&%24.spec_steps_between_int.
[mk-app] #824 fuel%vstd!std_specs.range.impl&%24.spec_forward_checked.
[mk-app] #825 fuel%vstd!std_specs.range.impl&%24.spec_forward_checked_int.
[mk-app] #826 fuel%vstd!std_specs.range.axiom_spec_range_next_usize.
[mk-app] #827 fuel%vstd!std_specs.range.impl&%30.spec_is_lt.
[mk-app] #828 fuel%vstd!std_specs.range.impl&%30.spec_steps_between_int.
[mk-app] #829 fuel%vstd!std_specs.range.impl&%30.spec_forward_checked.
[mk-app] #830 fuel%vstd!std_specs.range.impl&%30.spec_forward_checked_int.
[mk-app] #831 fuel%vstd!std_specs.range.axiom_spec_range_next_isize.
[mk-app] #832 fuel%vstd!std_specs.result.impl&%0.arrow_Ok_0.
[mk-app] #833 fuel%vstd!std_specs.result.is_ok.
[mk-app] #834 fuel%vstd!std_specs.result.spec_unwrap.
[mk-app] #835 fuel%vstd!std_specs.slice.impl&%10.obeys_prophetic_iter_laws.
[mk-app] #836 fuel%vstd!std_specs.slice.impl&%10.peek.
[mk-app] #837 fuel%vstd!std_specs.slice.impl&%11.obeys_prophetic_iter_laws.
[mk-app] #838 fuel%vstd!std_specs.slice.impl&%11.will_return_none.
[mk-app] #839 fuel%vstd!std_specs.slice.impl&%11.peek.
[mk-app] #840 fuel%vstd!std_specs.vec.axiom_spec_len.
[mk-app] #841 fuel%vstd!std_specs.vec.impl&%3.obeys_prophetic_iter_laws.
[mk-app] #842 fuel%vstd!std_specs.vec.impl&%3.peek.
[mk-app] #843 fuel%vstd!std_specs.vec.axiom_vec_has_resolved.
[mk-app] #844 fuel%vstd!std_specs.vec.axiom_vec_decreases_to_view.
[mk-app] #845 fuel%vstd!array.array_view.
[mk-app] #846 fuel%vstd!array.impl&%0.view.
[mk-app] #847 fuel%vstd!array.impl&%2.spec_index.
[mk-app] #848 fuel%vstd!array.lemma_array_index.
[mk-app] #849 fuel%vstd!array.array_len_matches_n.
[mk-app] #850 fuel%vstd!array.axiom_array_ext_equal.
[mk-app] #851 fuel%vstd!array.axiom_array_has_resolved.
[mk-app] #852 fuel%vstd!array.axiom_array_decreases_to_seq.
[mk-app] #853 fuel%vstd!array.lemma_array_index_decreases.
[mk-app] #854 fuel%vstd!function.axiom_fn_mut_call_requires.
[mk-app] #855 fuel%vstd!function.axiom_fn_mut_call_ensures.
[mk-app] #856 fuel%vstd!raw_ptr.impl&%3.view.
[mk-app] #857 fuel%vstd!raw_ptr.ptrs_mut_eq.
[mk-app] #858 fuel%vstd!raw_ptr.ptrs_mut_eq_sized.
[mk-app] #859 fuel%vstd!seq.impl&%2.spec_index.
[mk-app] #860 fuel%vstd!seq.impl&%2.take.
[mk-app] #861 fuel%vstd!seq.impl&%2.skip.
[mk-app] #862 fuel%vstd!seq.impl&%2.spec_add.
[mk-app] #863 fuel%vstd!seq.Seq.last.
[mk-app] #864 fuel%vstd!seq.lemma_seq_index_decreases.
[mk-app] #865 fuel%vstd!seq.lemma_seq_subrange_decreases.
[mk-app] #866 fuel%vstd!seq.lemma_seq_empty.
[mk-app] #867 fuel%vstd!seq.lemma_seq_new_len.
[mk-app] #868 fuel%vstd!seq.lemma_seq_new_index.
[mk-app] #869 fuel%vstd!seq.lemma_seq_push_len.
[mk-app] #870 fuel%vstd!seq.lemma_seq_push_index_same.
[mk-app] #871 fuel%vstd!seq.lemma_seq_push_index_different.
[mk-app] #872 fuel%vstd!seq.lemma_seq_ext_equal.
[mk-app] #873 fuel%vstd!seq.lemma_seq_ext_equal_deep.
[mk-app] #874 fuel%vstd!seq.lemma_seq_subrange_len.
[mk-app] #875 fuel%vstd!seq.lemma_seq_subrange_index.
[mk-app] #876 fuel%vstd!seq.lemma_seq_two_subranges_index.
[mk-app] #877 fuel%vstd!seq.lemma_seq_add_len.
[mk-app] #878 fuel%vstd!seq.lemma_seq_add_index1.
[mk-app] #879 fuel%vstd!seq.lemma_seq_add_index2.
[mk-app] #880 fuel%vstd!seq_lib.impl&%0.map_values.
[mk-app] #881 fuel%vstd!seq_lib.impl&%0.as_ref.
[mk-app] #882 fuel%vstd!seq_lib.impl&%0.add_empty_left.
[mk-app] #883 fuel%vstd!seq_lib.impl&%0.add_empty_right.
[mk-app] #884 fuel%vstd!seq_lib.impl&%0.push_distributes_over_add.
[mk-app] #885 fuel%vstd!seq_lib.impl&%0.drop_last.
[mk-app] #886 fuel%vstd!seq_lib.impl&%0.drop_first.
[mk-app] #887 fuel%vstd!seq_lib.impl&%1.unref.
[mk-app] #888 fuel%vstd!slice.impl&%2.spec_index.
[mk-app] #889 fuel%vstd!slice.axiom_spec_len.
[mk-app] #890 fuel%vstd!slice.len%returns_clause_autospec.
[mk-app] #891 fuel%vstd!slice.axiom_slice_ext_equal.
[mk-app] #892 fuel%vstd!slice.axiom_slice_has_resolved.
[mk-app] #893 fuel%vstd!slice.axiom_slice_decreases_to_seq.
[mk-app] #894 fuel%vstd!slice.lemma_slice_index_decreases.
[mk-app] #895 fuel%vstd!string.axiom_str_literal_len.
[mk-app] #896 fuel%vstd!string.axiom_str_literal_get_char.
[mk-app] #897 fuel%vstd!view.impl&%0.view.
[mk-app] #898 fuel%vstd!view.impl&%2.view.
[mk-app] #899 fuel%vstd!view.impl&%4.view.
[mk-app] #900 fuel%vstd!view.impl&%6.view.
[mk-app] #901 fuel%vstd!view.impl&%14.view.
[mk-app] #902 fuel%vstd!view.impl&%16.view.
[mk-app] #903 fuel%vstd!view.impl&%18.view.
[mk-app] #904 fuel%vstd!view.impl&%20.view.
[mk-app] #905 fuel%vstd!view.impl&%24.view.
[mk-app] #906 fuel%vstd!view.impl&%30.view.
[mk-app] #907 fuel%vstd!view.impl&%42.view.
[mk-app] #908 fuel%vstd!view.impl&%44.view.
[mk-app] #909 fuel%vstd!view.impl&%46.view.
[mk-app] #910 fuel%vstd!view.impl&%48.view.
[mk-app] #911 fuel%u_tokenizer!text.impl&%2.sv.
[mk-app] #912 fuel%u_tokenizer!text.impl&%3.sv.
[mk-app] #913 fuel%u_tokenizer!text.impl&%4.sv.
[mk-app] #914 fuel%u_tokenizer!text.impl&%8.shown.
[mk-app] #915 fuel%u_tokenizer!text.impl&%9.shown.
[mk-app] #916 fuel%u_tokenizer!text.impl&%11.shown.
[mk-app] #917 fuel%u_tokenizer!text.sviews.
[mk-app] #918 fuel%u_tokenizer!text.clen.
[mk-app] #919 fuel%u_tokenizer!text.blen.
[mk-app] #920 fuel%u_tokenizer!text.bpos.
[mk-app] #921 fuel%u_tokenizer!text.is_at.
[mk-app] #922 fuel%u_tokenizer!text.boundary.
[mk-app] #923 fuel%u_tokenizer!text.ci.
[mk-app] #924 fuel%u_tokenizer!text.axiom_blank.
[mk-app] #925 fuel%u_tokenizer!text.end_trimmed.
[mk-app] #926 fuel%u_tokenizer!text.start_trimmed.
[mk-app] #927 fuel%u_tokenizer!lst.impl&%0.length_of.
[mk-app] #928 fuel%u_tokenizer!lst.impl&%1.length_of.
[mk-app] #929 fuel%u_tokenizer!lst.impl&%2.length_of.
[mk-app] #930 fuel%u_tokenizer!lst.impl&%3.length_of.
[mk-app] #931 fuel%u_tokenizer!lst.impl&%4.none.
[mk-app] #932 fuel%u_tokenizer!lst.impl&%5.none.
[mk-app] #933 fuel%u_tokenizer!lst.impl&%6.none.
[mk-app] #934 fuel%u_tokenizer!lst.impl&%7.none.
[mk-app] #935 fuel%u_tokenizer!lst.visible_end.
[mk-app] #936 fuel%u_tokenizer!lst.tokens_span.
[mk-app] #937 fuel%u_tokenizer!lst.range_fine.
[mk-app] #938 fuel%u_tokenizer!lex.is_alnum.
[mk-app] #939 fuel%u_tokenizer!lex.is_symbol.
[mk-app] #940 fuel%u_tokenizer!lex.is_digit.
[mk-app] #941 fuel%u_tokenizer!lex.axiom_classes.
[mk-app] #942 fuel%u_tokenizer!lex.axiom_visible.
[mk-app] #943 fuel%u_tokenizer!lex.within.
[mk-app] #944 fuel%u_tokenizer!lex.scan.
[mk-app] #945 fuel%u_tokenizer!lex.comment.
[mk-app] #946 fuel%u_tokenizer!lex.para_state.
[mk-app] #947 fuel%u_tokenizer!lex.kept.
[mk-app] #948 fuel%u_tokenizer!lex.paragraphs.
[mk-app] #949 fuel%u_tokenizer!lex.value.
[mk-app] #950 fuel%u_tokenizer!lex.is_keyword.
[mk-app] #951 fuel%u_tokenizer!lex.one.
[mk-app] #952 fuel%u_tokenizer!lex.step.
[mk-app] #953 fuel%u_tokenizer!lex.lexed.
[mk-app] #954 fuel%u_tokenizer!lex.blank_between.
[mk-app] #955 fuel%u_tokenizer!lex.covers.
[mk-app] #956 fuel%u_tokenizer!lex.with.
[mk-app] #957 fuel%u_tokenizer!lex.impl&%1.wf.
[mk-app] #958 fuel%u_tokenizer!lex.impl&%2.it.
[mk-app] #959 fuel%u_tokenizer!lex.impl&%5.pushed.
[mk-app] #960 fuel%u_tokenizer!lex.impl&%6.pushed.
[mk-app] #961 fuel%u_tokenizer!token.ASYMMETRIC_KEYWORD.
[mk-app] #962 fuel%u_tokenizer!token.AS_KEYWORD.
[mk-app] #963 fuel%u_tokenizer!token.BOOL_KEYWORD.
[mk-app] #964 fuel%u_tokenizer!token.BYTES_KEYWORD.
[mk-app] #965 fuel%u_tokenizer!token.CHOICE_KEYWORD.
[mk-app] #966 fuel%u_tokenizer!token.DELETED_KEYWORD.
[mk-app] #967 fuel%u_tokenizer!token.F64_KEYWORD.
[mk-app] #968 fuel%u_tokenizer!token.IMPORT_KEYWORD.
[mk-app] #969 fuel%u_tokenizer!token.OPTIONAL_KEYWORD.
[mk-app] #970 fuel%u_tokenizer!token.S64_KEYWORD.
[mk-app] #971 fuel%u_tokenizer!token.STRING_KEYWORD.
[mk-app] #972 fuel%u_tokenizer!token.STRUCT_KEYWORD.
[mk-app] #973 fuel%u_tokenizer!token.U64_KEYWORD.
[mk-app] #974 fuel%u_tokenizer!token.UNIT_KEYWORD.
[mk-app] #975 fuel%u_tokenizer!tokenizer.kind_is.
[mk-app] #976 fuel%u_tokenizer!tokenizer.is_tok.
[mk-app] #977 fuel%u_tokenizer!tokenizer.are_toks.
[mk-app] #978 fuel%u_tokenizer!tokenizer.progress.
[mk-app] #979 fuel%u_tokenizer!tokenizer.RAW_IDENTIFIER_SIGIL.
[mk-app] #980 fuel%vstd!array.group_array_axioms.
[mk-app] #981 fuel%vstd!function.group_function_axioms.
[mk-app] #982 fuel%vstd!imap.group_imap_lemmas.
[mk-app] #983 fuel%vstd!iset.group_iset_lemmas.
[mk-app] #984 fuel%vstd!laws_cmp.group_laws_cmp.
[mk-app] #985 fuel%vstd!laws_eq.bool_laws.group_laws_eq.
[mk-app] #986 fuel%vstd!laws_eq.u8_laws.group_laws_eq.
[mk-app] #987 fuel%vstd!laws_eq.i8_laws.group_laws_eq.
[mk-app] #988 fuel%vstd!laws_eq.u16_laws.group_laws_eq.
[mk-app] #989 fuel%vstd!laws_eq.i16_laws.group_laws_eq.
[mk-app] #990 fuel%vstd!laws_eq.u32_laws.group_laws_eq.
[mk-app] #991 fuel%vstd!laws_eq.i32_laws.group_laws_eq.
[mk-app] #992 fuel%vstd!laws_eq.u64_laws.group_laws_eq.
[mk-app] #993 fuel%vstd!laws_eq.i64_laws.group_laws_eq.
[mk-app] #994 fuel%vstd!laws_eq.u128_laws.group_laws_eq.
[mk-app] #995 fuel%vstd!laws_eq.i128_laws.group_laws_eq.
[mk-app] #996 fuel%vstd!laws_eq.usize_laws.group_laws_eq.
[mk-app] #997 fuel%vstd!laws_eq.isize_laws.group_laws_eq.
[mk-app] #998 fuel%vstd!laws_eq.tuple_1_laws.group_laws_eq.
[mk-app] #999 fuel%vstd!laws_eq.tuple_2_laws.group_laws_eq.
[mk-app] #1000 fuel%vstd!laws_eq.tuple_3_laws.group_laws_eq.
[mk-app] #1001 fuel%vstd!laws_eq.tuple_4_laws.group_laws_eq.
[mk-app] #1002 fuel%vstd!laws_eq.tuple_5_laws.group_laws_eq.
[mk-app] #1003 fuel%vstd!laws_eq.tuple_6_laws.group_laws_eq.
[mk-app] #1004 fuel%vstd!laws_eq.tuple_7_laws.group_laws_eq.
[mk-app] #1005 fuel%vstd!laws_eq.tuple_8_laws.group_laws_eq.
[mk-app] #1006 fuel%vstd!laws_eq.tuple_9_laws.group_laws_eq.
[mk-app] #1007 fuel%vstd!laws_eq.tuple_10_laws.group_laws_eq.
[mk-app] #1008 fuel%vstd!laws_eq.tuple_11_laws.group_laws_eq.
[mk-app] #1009 fuel%vstd!laws_eq.tuple_12_laws.group_laws_eq.
[mk-app] #1010 fuel%vstd!laws_eq.group_laws_eq.
[mk-app] #1011 fuel%vstd!layout.group_align_properties.
[mk-app] #1012 fuel%vstd!layout.group_layout_axioms.
[mk-app] #1013 fuel%vstd!map.group_map_lemmas.
[mk-app] #1014 fuel%vstd!multiset.group_multiset_axioms.
[mk-app] #1015 fuel%vstd!mut_ref.group_mut_ref_axioms.
[mk-app] #1016 fuel%vstd!raw_ptr.group_raw_ptr_axioms.
[mk-app] #1017 fuel%vstd!seq.group_seq_lemmas.
[mk-app] #1018 fuel%vstd!seq_lib.group_filter_ensures.
[mk-app] #1019 fuel%vstd!seq_lib.group_seq_lib_default.
[mk-app] #1020 fuel%vstd!set.group_set_lemmas.
[mk-app] #1021 fuel%vstd!set_lib.group_set_lib_default.
[mk-app] #1022 fuel%vstd!slice.group_slice_axioms.
[mk-app] #1023 fuel%vstd!string.group_string_axioms.
[mk-app] #1024 fuel%vstd!std_specs.bits.group_bits_axioms.
[mk-app] #1025 fuel%vstd!std_specs.control_flow.group_control_flow_axioms.
[mk-app] #1026 fuel%vstd!std_specs.fmt.group_fmt_axioms.
[mk-app] #1027 fuel%vstd!std_specs.iter.group_iter_axioms.
[mk-app] #1028 fuel%vstd!std_specs.manually_drop.group_manually_drop_axioms.
[mk-app] #1029 fuel%vstd!std_specs.btree.group_btree_axioms.
[mk-app] #1030 fuel%vstd!std_specs.hash.group_hash_axioms.
[mk-app] #1031 fuel%vstd!std_specs.range.group_range_axioms.
[mk-app] #1032 fuel%vstd!std_specs.vec.group_vec_axioms.
[mk-app] #1033 fuel%vstd!std_specs.vecdeque.group_vec_dequeue_axioms.
[mk-app] #1034 fuel%vstd!std_specs.nonzero.group_nonzero_axioms.
[mk-app] #1035 fuel%vstd!group_vstd_default.
[mk-app] #1036 distinct #794 #795 #796 #797 #798 #799 #800 #801 #802 #803 #804 #805 #806 #807 #808 #809 #810 #811 #812 #813 #814 #815 #816 #817 #818 #819 #820 #821 #822 #823 #824 #825 #826 #827 #828 #829 #830 #831 #832 #833 #834 #835 #836 #837 #838 #839 #840 #841 #842 #843 #844 #845 #846 #847 #848 #849 #850 #851 #852 #853 #854 #855 #856 #857 #858 #859 #860 #861 #862 #863 #864 #865 #866 #867 #868 #869 #870 #871 #872 #873 #874 #875 #876 #877 #878 #879 #880 #881 #882 #883 #884 #885 #886 #887 #888 #889 #890 #891 #892 #893 #894 #895 #896 #897 #898 #899 #900 #901 #902 #903 #904 #905 #906 #907 #908 #909 #910 #911 #912 #913 #914 #915 #916 #917 #918 #919 #920 #921 #922 #923 #924 #925 #926 #927 #928 #929 #930 #931 #932 #933 #934 #935 #936 #937 #938 #939 #940 #941 #942 #943 #944 #945 #946 #947 #948 #949 #950 #951 #952 #953 #954 #955 #956 #957 #958 #959 #960 #961 #962 #963 #964 #965 #966 #967 #968 #969 #970 #971 #972 #973 #974 #975 #976 #977 #978 #979 #980 #981 #982 #983 #984 #985 #986 #987 #988 #989 #990 #991 #992 #993 #994 #995 #996 #997 #998 #999 #1000 #1001 #1002 #1003 #1004 #1005 #1006 #1007 #1008 #1009 #1010 #1011 #1012 #1013 #1014 #1015 #1016 #1017 #1018 #1019 #1020 #1021 #1022 #1023 #1024 #1025 #1026 #1027 #1028 #1029 #1030 #1031 #1032 #1033 #1034 #1035
[mk-app] #1037 fuel_bool_default #980
[mk-app] #1038 fuel_bool_default #849
[mk-app] #1039 fuel_bool_default #848
[mk-app] #1040 fuel_bool_default #850
[mk-app] #1041 fuel_bool_default #851
[mk-app] #1042 fuel_bool_default #852
[mk-app] #1043 fuel_bool_default #853
[mk-app] #1044 and #1038 #1039 #1040 #1041 #1042 #1043
[mk-app] #1045 => #1037 #1044
[mk-app] #1046 not #1037
[mk-app] #1047 or #1046 #1044
[inst-discovered] theory-solving 0x0 basic# ; #1045
[mk-app] #1048 = #1045 #1047
[instance] 0x0 #1048
[attach-enode] #1048 0
[end-of-instance]
[mk-app] #1048 fuel_bool_default #981
[mk-app] #1049 fuel_bool_default #854
[mk-app] #1050 fuel_bool_default #855
[mk-app] #1051 and #1049 #1050
[mk-app] #1052 => #1048 #1051
[mk-app] #1053 not #1048
[mk-app] #1054 or #1053 #1051
[inst-discovered] theory-solving 0x0 basic# ; #1052
[mk-app] #1055 = #1052 #1054
[instance] 0x0 #1055
[attach-enode] #1055 0
[end-of-instance]
[mk-app] #1055 fuel_bool_default #1010
[mk-app] #1056 fuel_bool_default #985
[mk-app] #1057 fuel_bool_default #986
[mk-app] #1058 fuel_bool_default #987
[mk-app] #1059 fuel_bool_default #988
[mk-app] #1060 fuel_bool_default #989
[mk-app] #1061 fuel_bool_default #990
[mk-app] #1062 fuel_bool_default #991
[mk-app] #1063 fuel_bool_default #992
[mk-app] #1064 fuel_bool_default #993
[mk-app] #1065 fuel_bool_default #994
[mk-app] #1066 fuel_bool_default #995
[mk-app] #1067 fuel_bool_default #996
[mk-app] #1068 fuel_bool_default #997
[mk-app] #1069 fuel_bool_default #998
[mk-app] #1070 fuel_bool_default #999
[mk-app] #1071 fuel_bool_default #1000
[mk-app] #1072 fuel_bool_default #1001
[mk-app] #1073 fuel_bool_default #1002
[mk-app] #1074 fuel_bool_default #1003
[mk-app] #1075 fuel_bool_default #1004
[mk-app] #1076 fuel_bool_default #1005
[mk-app] #1077 fuel_bool_default #1006
[mk-app] #1078 fuel_bool_default #1007
[mk-app] #1079 fuel_bool_default #1008
[mk-app] #1080 fuel_bool_default #1009
[mk-app] #1081 and #1056 #1057 #1058 #1059 #1060 #1061 #1062 #1063 #1064 #1065 #1066 #1067 #1068 #1069 #1070 #1071 #1072 #1073 #1074 #1075 #1076 #1077 #1078 #1079 #1080
[mk-app] #1082 => #1055 #1081
[mk-app] #1083 not #1055
[mk-app] #1084 or #1083 #1081
[inst-discovered] theory-solving 0x0 basic# ; #1082
[mk-app] #1085 = #1082 #1084
[instance] 0x0 #1085
[attach-enode] #1085 0
[end-of-instance]
[mk-app] #1085 fuel_bool_default #1012
[mk-app] #1086 fuel_bool_default #1011
[mk-app] #1087 => #1085 #1086
[mk-app] #1088 not #1085
[mk-app] #1089 or #1088 #1086
[inst-discovered] theory-solving 0x0 basic# ; #1087
[mk-app] #1090 = #1087 #1089
[instance] 0x0 #1090
[attach-enode] #1090 0
[end-of-instance]
[mk-app] #1090 fuel_bool_default #1016
[mk-app] #1091 fuel_bool_default #857
[mk-app] #1092 fuel_bool_default #858
[mk-app] #1093 and #1091 #1092
[mk-app] #1094 => #1090 #1093
[mk-app] #1095 not #1090
[mk-app] #1096 or #1095 #1093
[inst-discovered] theory-solving 0x0 basic# ; #1094
[mk-app] #1097 = #1094 #1096
[instance] 0x0 #1097
[attach-enode] #1097 0
[end-of-instance]
[mk-app] #1097 fuel_bool_default #1017
[mk-app] #1098 fuel_bool_default #864
[mk-app] #1099 fuel_bool_default #865
[mk-app] #1100 fuel_bool_default #866
[mk-app] #1101 fuel_bool_default #867
[mk-app] #1102 fuel_bool_default #868
[mk-app] #1103 fuel_bool_default #869
[mk-app] #1104 fuel_bool_default #870
[mk-app] #1105 fuel_bool_default #871
[mk-app] #1106 fuel_bool_default #872
[mk-app] #1107 fuel_bool_default #873
[mk-app] #1108 fuel_bool_default #874
[mk-app] #1109 fuel_bool_default #875
[mk-app] #1110 fuel_bool_default #876
[mk-app] #1111 fuel_bool_default #877
[mk-app] #1112 fuel_bool_default #878
[mk-app] #1113 fuel_bool_default #879
[mk-app] #1114 and #1098 #1099 #1100 #1101 #1102 #1103 #1104 #1105 #1106 #1107 #1108 #1109 #1110 #1111 #1112 #1113
[mk-app] #1115 => #1097 #1114
[mk-app] #1116 not #1097
[mk-app] #1117 or #1116 #1114
[inst-discovered] theory-solving 0x0 basic# ; #1115
[mk-app] #1118 = #1115 #1117
[instance] 0x0 #1118
[attach-enode] #1118 0
[end-of-instance]
[mk-app] #1118 fuel_bool_default #1019
[mk-app] #1119 fuel_bool_default #1018
[mk-app] #1120 fuel_bool_default #882
[mk-app] #1121 fuel_bool_default #883
[mk-app] #1122 fuel_bool_default #884
[mk-app] #1123 and #1119 #1120 #1121 #1122
[mk-app] #1124 => #1118 #1123
[mk-app] #1125 not #1118
[mk-app] #1126 or #1125 #1123
[inst-discovered] theory-solving 0x0 basic# ; #1124
[mk-app] #1127 = #1124 #1126
[instance] 0x0 #1127
[attach-enode] #1127 0
[end-of-instance]
[mk-app] #1127 fuel_bool_default #1022
[mk-app] #1128 fuel_bool_default #889
[mk-app] #1129 fuel_bool_default #891
[mk-app] #1130 fuel_bool_default #892
[mk-app] #1131 fuel_bool_default #893
[mk-app] #1132 fuel_bool_default #894
[mk-app] #1133 and #1128 #1129 #1130 #1131 #1132
[mk-app] #1134 => #1127 #1133
[mk-app] #1135 not #1127
[mk-app] #1136 or #1135 #1133
[inst-discovered] theory-solving 0x0 basic# ; #1134
[mk-app] #1137 = #1134 #1136
[instance] 0x0 #1137
[attach-enode] #1137 0
[end-of-instance]
[mk-app] #1137 fuel_bool_default #1023
[mk-app] #1138 fuel_bool_default #895
[mk-app] #1139 fuel_bool_default #896
[mk-app] #1140 and #1138 #1139
[mk-app] #1141 => #1137 #1140
[mk-app] #1142 not #1137
[mk-app] #1143 or #1142 #1140
[inst-discovered] theory-solving 0x0 basic# ; #1141
[mk-app] #1144 = #1141 #1143
[instance] 0x0 #1144
[attach-enode] #1144 0
[end-of-instance]
[mk-app] #1144 fuel_bool_default #1031
[mk-app] #1145 fuel_bool_default #816
[mk-app] #1146 fuel_bool_default #821
[mk-app] #1147 fuel_bool_default #826
[mk-app] #1148 fuel_bool_default #831
[mk-app] #1149 and #1145 #1146 #1147 #1148
[mk-app] #1150 => #1144 #1149
[mk-app] #1151 not #1144
[mk-app] #1152 or #1151 #1149
[inst-discovered] theory-solving 0x0 basic# ; #1150
[mk-app] #1153 = #1150 #1152
[instance] 0x0 #1153
[attach-enode] #1153 0
[end-of-instance]
[mk-app] #1153 fuel_bool_default #1032
[mk-app] #1154 fuel_bool_default #840
[mk-app] #1155 fuel_bool_default #843
[mk-app] #1156 fuel_bool_default #844
[mk-app] #1157 and #1154 #1155 #1156
[mk-app] #1158 => #1153 #1157
[mk-app] #1159 not #1153
[mk-app] #1160 or #1159 #1157
[inst-discovered] theory-solving 0x0 basic# ; #1158
[mk-app] #1161 = #1158 #1160
[instance] 0x0 #1161
[attach-enode] #1161 0
[end-of-instance]
[mk-app] #1161 fuel_bool_default #1035
[mk-app] #1162 fuel_bool_default #1013
[mk-app] #1163 fuel_bool_default #1020
[mk-app] #1164 fuel_bool_default #982
[mk-app] #1165 fuel_bool_default #983
[mk-app] #1166 fuel_bool_default #1021
[mk-app] #1167 fuel_bool_default #1014
[mk-app] #1168 fuel_bool_default #984
[mk-app] #1169 fuel_bool_default #1015
[mk-app] #1170 fuel_bool_default #1024
[mk-app] #1171 fuel_bool_default #1025
[mk-app] #1172 fuel_bool_default #1026
[mk-app] #1173 fuel_bool_default #1028
[mk-app] #1174 fuel_bool_default #1027
[mk-app] #1175 fuel_bool_default #1033
[mk-app] #1176 fuel_bool_default #1030
[mk-app] #1177 fuel_bool_default #1029
[mk-app] #1178 fuel_bool_default #1034
[mk-app] #1179 and #1097 #1118 #1162 #1163 #1164 #1165 #1166 #1167 #1048 #1055 #1168 #1127 #1037 #1137 #1090 #1085 #1169 #1144 #1170 #1171 #1172 #1173 #1174 #1153 #1175 #1176 #1177 #1178
[mk-app] #1180 => #1161 #1179
[mk-app] #1181 not #1161
[mk-app] #1182 or #1181 #1179
[inst-discovered] theory-solving 0x0 basic# ; #1180
[mk-app] #1183 = #1180 #1182
[instance] 0x0 #1183
[attach-enode] #1183 0
[end-of-instance]
[mk-app] #1183 pointee_metadata% #78
[mk-app] #1184 TYPE%tuple%0.
[mk-app] #1185 = #1183 #1184
[mk-app] #1186 => #79 #1185
[mk-app] #1187 pattern #1183
[mk-quant] #1188 prelude_project_pointee_metadata_sized 1 #1187 #1186
[attach-var-names] #1188 (|d| ; |Dcr|)
[mk-app] #1189 or #85 #1185
[inst-discovered] theory-solving 0x0 basic# ; #1186
[mk-app] #1190 = #1186 #1189
[instance] 0x0 #1190
[attach-enode] #1190 0
[end-of-instance]
[mk-quant] #1190 prelude_project_pointee_metadata_sized 1 #1187 #1189
[attach-var-names] #1190 (|d| ; |Dcr|)
[mk-app] #1191 pointee_metadata%% #78
[mk-app] #1192 = #1191 #120
[mk-app] #1193 => #79 #1192
[mk-app] #1194 pattern #1191
[mk-quant] #1195 prelude_project_pointee_metadata_decoration_sized 1 #1194 #1193
[attach-var-names] #1195 (|d| ; |Dcr|)
[mk-app] #1196 or #85 #1192
[inst-discovered] theory-solving 0x0 basic# ; #1193
[mk-app] #1197 = #1193 #1196
[instance] 0x0 #1197
[attach-enode] #1197 0
[end-of-instance]
[mk-quant] #1197 prelude_project_pointee_metadata_decoration_sized 1 #1194 #1196
[attach-var-names] #1197 (|d| ; |Dcr|)
[mk-app] #1198 $slice
[mk-app] #1199 pointee_metadata% #1198
[mk-app] #1200 = #1199 #203
[mk-app] #1201 pointee_metadata%% #1198
[mk-app] #1202 = #1201 #120
[mk-app] #1203 pointee_metadata% #80
[mk-app] #1204 = #1203 #1183
[mk-app] #1205 pattern #1203
[mk-quant] #1206 prelude_project_pointee_metadata_decorate_struct_inherit 1 #1205 #1204
[attach-var-names] #1206 (|d| ; |Dcr|)
[mk-app] #1207 pointee_metadata%% #80
[mk-app] #1208 = #1207 #1191
[mk-app] #1209 pattern #1207
[mk-quant] #1210 prelude_project_pointee_metadata_decoration_decorate_struct_inherit 1 #1209 #1208
[attach-var-names] #1210 (|d| ; |Dcr|)
[mk-var] datatype#10 0
[mk-app] datatype#11 core!option.Option./Some datatype#10
[mk-app] datatype#12 pattern datatype#11
[mk-app] datatype#13 core!option.Option./Some/?0 datatype#11
[mk-app] datatype#14 = datatype#10 datatype#13
[mk-quant] datatype#15 constructor_accessor_axiom 1 datatype#12 datatype#14
[attach-var-names] datatype#15 (;Poly)
[mk-var] datatype#16 0
[mk-app] datatype#17 core!result.Result./Ok datatype#16
[mk-app] datatype#18 pattern datatype#17
[mk-app] datatype#19 core!result.Result./Ok/?0 datatype#17
[mk-app] datatype#20 = datatype#16 datatype#19
[mk-quant] datatype#21 constructor_accessor_axiom 1 datatype#18 datatype#20
[attach-var-names] datatype#21 (;Poly)
[mk-var] datatype#22 0
[mk-app] datatype#23 core!result.Result./Err datatype#22
[mk-app] datatype#24 pattern datatype#23
[mk-app] datatype#25 core!result.Result./Err/?0 datatype#23
[mk-app] datatype#26 = datatype#22 datatype#25
[mk-quant] datatype#27 constructor_accessor_axiom 1 datatype#24 datatype#26
[attach-var-names] datatype#27 (;Poly)
[mk-var] datatype#28 0
[mk-var] datatype#29 1
[mk-var] datatype#30 2
[mk-var] datatype#31 3
[mk-app] datatype#32 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper datatype#28 datatype#29 datatype#30 datatype#31
[mk-app] datatype#33 pattern datatype#32
[mk-app] datatype#34 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?index datatype#32
[mk-app] datatype#35 = datatype#28 datatype#34
[mk-quant] datatype#36 constructor_accessor_axiom 4 datatype#33 datatype#35
[attach-var-names] datatype#36 (;Int) (;Poly) (;Poly) (;Poly)
[mk-app] datatype#37 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?snapshot datatype#32
[mk-app] datatype#38 = datatype#29 datatype#37
[mk-quant] datatype#39 constructor_accessor_axiom 4 datatype#33 datatype#38
[attach-var-names] datatype#39 (;Int) (;Poly) (;Poly) (;Poly)
[mk-app] datatype#40 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?iter datatype#32
[mk-app] datatype#41 = datatype#30 datatype#40
[mk-quant] datatype#42 constructor_accessor_axiom 4 datatype#33 datatype#41
[attach-var-names] datatype#42 (;Int) (;Poly) (;Poly) (;Poly)
[mk-app] datatype#43 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?history datatype#32
[mk-app] datatype#44 = datatype#31 datatype#43
[mk-quant] datatype#45 constructor_accessor_axiom 4 datatype#33 datatype#44
[attach-var-names] datatype#45 (;Int) (;Poly) (;Poly) (;Poly)
[mk-var] datatype#46 0
[mk-var] datatype#47 1
[mk-app] datatype#48 core!ops.range.Range./Range datatype#46 datatype#47
[mk-app] datatype#49 pattern datatype#48
[mk-app] datatype#50 core!ops.range.Range./Range/?start datatype#48
[mk-app] datatype#51 = datatype#46 datatype#50
[mk-quant] datatype#52 constructor_accessor_axiom 2 datatype#49 datatype#51
[attach-var-names] datatype#52 (;Poly) (;Poly)
[mk-app] datatype#53 core!ops.range.Range./Range/?end datatype#48
[mk-app] datatype#54 = datatype#47 datatype#53
[mk-quant] datatype#55 constructor_accessor_axiom 2 datatype#49 datatype#54
[attach-var-names] datatype#55 (;Poly) (;Poly)
[mk-var] datatype#56 0
[mk-var] datatype#57 1
[mk-var] datatype#58 2
[mk-app] datatype#59 vstd!raw_ptr.PtrData./PtrData datatype#56 datatype#57 datatype#58
[mk-app] datatype#60 pattern datatype#59
[mk-app] datatype#61 vstd!raw_ptr.PtrData./PtrData/?addr datatype#59
[mk-app] datatype#62 = datatype#56 datatype#61
[mk-quant] datatype#63 constructor_accessor_axiom 3 datatype#60 datatype#62
[attach-var-names] datatype#63 (;Int) (;vstd!raw_ptr.Provenance.) (;Poly)
[mk-app] datatype#64 vstd!raw_ptr.PtrData./PtrData/?provenance datatype#59
[mk-app] datatype#65 = datatype#57 datatype#64
[mk-quant] datatype#66 constructor_accessor_axiom 3 datatype#60 datatype#65
[attach-var-names] datatype#66 (;Int) (;vstd!raw_ptr.Provenance.) (;Poly)
[mk-app] datatype#67 vstd!raw_ptr.PtrData./PtrData/?metadata datatype#59
[mk-app] datatype#68 = datatype#58 datatype#67
[mk-quant] datatype#69 constructor_accessor_axiom 3 datatype#60 datatype#68
[attach-var-names] datatype#69 (;Int) (;vstd!raw_ptr.Provenance.) (;Poly)
[mk-var] datatype#70 0
[mk-var] datatype#71 1
[mk-var] datatype#72 2
[mk-app] datatype#73 u_tokenizer!lex.Comment./Comment datatype#70 datatype#71 datatype#72
[mk-app] datatype#74 pattern datatype#73
[mk-app] datatype#75 u_tokenizer!lex.Comment./Comment/?lines datatype#73
[mk-app] datatype#76 = datatype#70 datatype#75
[mk-quant] datatype#77 constructor_accessor_axiom 3 datatype#74 datatype#76
[attach-var-names] datatype#77 (;vstd!seq.Seq<vstd!seq.Seq<char.>.>.) (;Int) (;Int)
[mk-app] datatype#78 u_tokenizer!lex.Comment./Comment/?end datatype#73
[mk-app] datatype#79 = datatype#71 datatype#78
[mk-quant] datatype#80 constructor_accessor_axiom 3 datatype#74 datatype#79
[attach-var-names] datatype#80 (;vstd!seq.Seq<vstd!seq.Seq<char.>.>.) (;Int) (;Int)
[mk-app] datatype#81 u_tokenizer!lex.Comment./Comment/?next datatype#73
[mk-app] datatype#82 = datatype#72 datatype#81
[mk-quant] datatype#83 constructor_accessor_axiom 3 datatype#74 datatype#82
[attach-var-names] datatype#83 (;vstd!seq.Seq<vstd!seq.Seq<char.>.>.) (;Int) (;Int)
[mk-var] datatype#84 0
[mk-app] datatype#85 u_tokenizer!lex.Kind./Symbol datatype#84
[mk-app] datatype#86 pattern datatype#85
[mk-app] datatype#87 u_tokenizer!lex.Kind./Symbol/?0 datatype#85
[mk-app] datatype#88 = datatype#84 datatype#87
[mk-quant] datatype#89 constructor_accessor_axiom 1 datatype#86 datatype#88
[attach-var-names] datatype#89 (;Int)
[mk-var] datatype#90 0
[mk-app] datatype#91 u_tokenizer!lex.Kind./Word datatype#90
[mk-app] datatype#92 pattern datatype#91
[mk-app] datatype#93 u_tokenizer!lex.Kind./Word/?0 datatype#91
[mk-app] datatype#94 = datatype#90 datatype#93
[mk-quant] datatype#95 constructor_accessor_axiom 1 datatype#92 datatype#94
[attach-var-names] datatype#95 (;vstd!seq.Seq<char.>.)
[mk-var] datatype#96 0
[mk-app] datatype#97 u_tokenizer!lex.Kind./Name datatype#96
[mk-app] datatype#98 pattern datatype#97
[mk-app] datatype#99 u_tokenizer!lex.Kind./Name/?0 datatype#97
[mk-app] datatype#100 = datatype#96 datatype#99
[mk-quant] datatype#101 constructor_accessor_axiom 1 datatype#98 datatype#100
[attach-var-names] datatype#101 (;vstd!seq.Seq<char.>.)
[mk-var] datatype#102 0
[mk-app] datatype#103 u_tokenizer!lex.Kind./Int datatype#102
[mk-app] datatype#104 pattern datatype#103
[mk-app] datatype#105 u_tokenizer!lex.Kind./Int/?0 datatype#103
[mk-app] datatype#106 = datatype#102 datatype#105
[mk-quant] datatype#107 constructor_accessor_axiom 1 datatype#104 datatype#106
[attach-var-names] datatype#107 (;Int)
[mk-var] datatype#108 0
[mk-app] datatype#109 u_tokenizer!lex.Kind./Path datatype#108
[mk-app] datatype#110 pattern datatype#109
[mk-app] datatype#111 u_tokenizer!lex.Kind./Path/?0 datatype#109
[mk-app] datatype#112 = datatype#108 datatype#111
[mk-quant] datatype#113 constructor_accessor_axiom 1 datatype#110 datatype#112
[attach-var-names] datatype#113 (;vstd!seq.Seq<char.>.)
[mk-var] datatype#114 0
[mk-app] datatype#115 u_tokenizer!lex.Kind./Comment datatype#114
[mk-app] datatype#116 pattern datatype#115
[mk-app] datatype#117 u_tokenizer!lex.Kind./Comment/?0 datatype#115
[mk-app] datatype#118 = datatype#114 datatype#117
[mk-quant] datatype#119 constructor_accessor_axiom 1 datatype#116 datatype#118
[attach-var-names] datatype#119 (;vstd!seq.Seq<vstd!seq.Seq<char.>.>.)
[mk-var] datatype#120 0
[mk-var] datatype#121 1
[mk-var] datatype#122 2
[mk-app] datatype#123 u_tokenizer!lex.Tok./Tok datatype#120 datatype#121 datatype#122
[mk-app] datatype#124 pattern datatype#123
[mk-app] datatype#125 u_tokenizer!lex.Tok./Tok/?s datatype#123
[mk-app] datatype#126 = datatype#120 datatype#125
[mk-quant] datatype#127 constructor_accessor_axiom 3 datatype#124 datatype#126
[attach-var-names] datatype#127 (;Int) (;Int) (;u_tokenizer!lex.Kind.)
[mk-app] datatype#128 u_tokenizer!lex.Tok./Tok/?e datatype#123
[mk-app] datatype#129 = datatype#121 datatype#128
[mk-quant] datatype#130 constructor_accessor_axiom 3 datatype#124 datatype#129
[attach-var-names] datatype#130 (;Int) (;Int) (;u_tokenizer!lex.Kind.)
[mk-app] datatype#131 u_tokenizer!lex.Tok./Tok/?kind datatype#123
[mk-app] datatype#132 = datatype#122 datatype#131
[mk-quant] datatype#133 constructor_accessor_axiom 3 datatype#124 datatype#132
[attach-var-names] datatype#133 (;Int) (;Int) (;u_tokenizer!lex.Kind.)
[mk-var] datatype#134 0
[mk-var] datatype#135 1
[mk-var] datatype#136 2
[mk-app] datatype#137 u_tokenizer!lex.Step./Step datatype#134 datatype#135 datatype#136
[mk-app] datatype#138 pattern datatype#137
[mk-app] datatype#139 u_tokenizer!lex.Step./Step/?tok datatype#137
[mk-app] datatype#140 = datatype#134 datatype#139
[mk-quant] datatype#141 constructor_accessor_axiom 3 datatype#138 datatype#140
[attach-var-names] datatype#141 (;core!option.Option.) (;Bool) (;Int)
[mk-app] datatype#142 u_tokenizer!lex.Step./Step/?ok datatype#137
[mk-app] datatype#143 = datatype#135 datatype#142
[mk-quant] datatype#144 constructor_accessor_axiom 3 datatype#138 datatype#143
[attach-var-names] datatype#144 (;core!option.Option.) (;Bool) (;Int)
[mk-app] datatype#145 u_tokenizer!lex.Step./Step/?next datatype#137
[mk-app] datatype#146 = datatype#136 datatype#145
[mk-quant] datatype#147 constructor_accessor_axiom 3 datatype#138 datatype#146
[attach-var-names] datatype#147 (;core!option.Option.) (;Bool) (;Int)
[mk-var] datatype#148 0
[mk-var] datatype#149 1
[mk-app] datatype#150 u_tokenizer!lex.Lexed./Lexed datatype#148 datatype#149
[mk-app] datatype#151 pattern datatype#150
[mk-app] datatype#152 u_tokenizer!lex.Lexed./Lexed/?toks datatype#150
[mk-app] datatype#153 = datatype#148 datatype#152
[mk-quant] datatype#154 constructor_accessor_axiom 2 datatype#151 datatype#153
[attach-var-names] datatype#154 (;vstd!seq.Seq<u_tokenizer!lex.Tok.>.) (;Bool)
[mk-app] datatype#155 u_tokenizer!lex.Lexed./Lexed/?ok datatype#150
[mk-app] datatype#156 = datatype#149 datatype#155
[mk-quant] datatype#157 constructor_accessor_axiom 2 datatype#151 datatype#156
[attach-var-names] datatype#157 (;vstd!seq.Seq<u_tokenizer!lex.Tok.>.) (;Bool)
[mk-var] datatype#158 0
[mk-app] datatype#159 u_tokenizer!lex.NotANumber./NotANumber datatype#158
[mk-app] datatype#160 pattern datatype#159
[mk-app] datatype#161 u_tokenizer!lex.NotANumber./NotANumber/?p datatype#159
[mk-app] datatype#162 = datatype#158 datatype#161
[mk-quant] datatype#163 constructor_accessor_axiom 1 datatype#160 datatype#162
[attach-var-names] datatype#163 (;Int)
[mk-var] datatype#164 0
[mk-var] datatype#165 1
[mk-app] datatype#166 u_tokenizer!error.SourceRange./SourceRange datatype#164 datatype#165
[mk-app] datatype#167 pattern datatype#166
[mk-app] datatype#168 u_tokenizer!error.SourceRange./SourceRange/?start datatype#166
[mk-app] datatype#169 = datatype#164 datatype#168
[mk-quant] datatype#170 constructor_accessor_axiom 2 datatype#167 datatype#169
[attach-var-names] datatype#170 (;Int) (;Int)
[mk-app] datatype#171 u_tokenizer!error.SourceRange./SourceRange/?end datatype#166
[mk-app] datatype#172 = datatype#165 datatype#171
[mk-quant] datatype#173 constructor_accessor_axiom 2 datatype#167 datatype#172
[attach-var-names] datatype#173 (;Int) (;Int)
[mk-var] datatype#174 0
[mk-var] datatype#175 1
[mk-app] datatype#176 u_tokenizer!token.Token./Token datatype#174 datatype#175
[mk-app] datatype#177 pattern datatype#176
[mk-app] datatype#178 u_tokenizer!token.Token./Token/?source_range datatype#176
[mk-app] datatype#179 = datatype#174 datatype#178
[mk-quant] datatype#180 constructor_accessor_axiom 2 datatype#177 datatype#179
[attach-var-names] datatype#180 (;u_tokenizer!error.SourceRange.) (;u_tokenizer!token.Variant.)
[mk-app] datatype#181 u_tokenizer!token.Token./Token/?variant datatype#176
[mk-app] datatype#182 = datatype#175 datatype#181
[mk-quant] datatype#183 constructor_accessor_axiom 2 datatype#177 datatype#182
[attach-var-names] datatype#183 (;u_tokenizer!error.SourceRange.) (;u_tokenizer!token.Variant.)
[mk-var] datatype#184 0
[mk-app] datatype#185 u_tokenizer!token.Variant./Comment datatype#184
[mk-app] datatype#186 pattern datatype#185
[mk-app] datatype#187 u_tokenizer!token.Variant./Comment/?0 datatype#185
[mk-app] datatype#188 = datatype#184 datatype#187
[mk-quant] datatype#189 constructor_accessor_axiom 1 datatype#186 datatype#188
[attach-var-names] datatype#189 (;alloc!vec.Vec<alloc!string.String./alloc!alloc.Global.>.)
[mk-var] datatype#190 0
[mk-app] datatype#191 u_tokenizer!token.Variant./Identifier datatype#190
[mk-app] datatype#192 pattern datatype#191
[mk-app] datatype#193 u_tokenizer!token.Variant./Identifier/?0 datatype#191
[mk-app] datatype#194 = datatype#190 datatype#193
[mk-quant] datatype#195 constructor_accessor_axiom 1 datatype#192 datatype#194
[attach-var-names] datatype#195 (;u_tokenizer!identifier.Identifier.)
[mk-var] datatype#196 0
[mk-app] datatype#197 u_tokenizer!token.Variant./Integer datatype#196
[mk-app] datatype#198 pattern datatype#197
[mk-app] datatype#199 u_tokenizer!token.Variant./Integer/?0 datatype#197
[mk-app] datatype#200 = datatype#196 datatype#199
[mk-quant] datatype#201 constructor_accessor_axiom 1 datatype#198 datatype#200
[attach-var-names] datatype#201 (;Int)
[mk-var] datatype#202 0
[mk-app] datatype#203 u_tokenizer!token.Variant./Path datatype#202
[mk-app] datatype#204 pattern datatype#203
[mk-app] datatype#205 u_tokenizer!token.Variant./Path/?0 datatype#203
[mk-app] datatype#206 = datatype#202 datatype#205
[mk-quant] datatype#207 constructor_accessor_axiom 1 datatype#204 datatype#206
[attach-var-names] datatype#207 (;u_tokenizer!shim.PathBuf.)
[mk-var] datatype#208 0
[mk-app] datatype#209 tuple%1./tuple%1 datatype#208
[mk-app] datatype#210 pattern datatype#209
[mk-app] datatype#211 tuple%1./tuple%1/?0 datatype#209
[mk-app] datatype#212 = datatype#208 datatype#211
[mk-quant] datatype#213 constructor_accessor_axiom 1 datatype#210 datatype#212
[attach-var-names] datatype#213 (;Poly)
[mk-var] datatype#214 0
[mk-var] datatype#215 1
[mk-app] datatype#216 tuple%2./tuple%2 datatype#214 datatype#215
[mk-app] datatype#217 pattern datatype#216
[mk-app] datatype#218 tuple%2./tuple%2/?0 datatype#216
[mk-app] datatype#219 = datatype#214 datatype#218
[mk-quant] datatype#220 constructor_accessor_axiom 2 datatype#217 datatype#219
[attach-var-names] datatype#220 (;Poly) (;Poly)
[mk-app] datatype#221 tuple%2./tuple%2/?1 datatype#216
[mk-app] datatype#222 = datatype#215 datatype#221
[mk-quant] datatype#223 constructor_accessor_axiom 2 datatype#217 datatype#222
[attach-var-names] datatype#223 (;Poly) (;Poly)
[mk-app] #1211 Poly%fun%1. #156
[mk-app] #1212 %Poly%fun%1. #1211
[mk-app] #1213 = #156 #1212
[mk-app] #1214 pattern #1211
[mk-quant] #1215 internal_crate__fun__1_box_axiom_definition 1 #1214 #1213
[attach-var-names] #1215 (|x| ; |%%Function%%|)
[mk-var] #1216 4
[mk-var] #1217 3
[mk-app] #1218 TYPE%fun%1. #1216 #1217 #64 #65
[mk-app] #1219 has_type #33 #1218
[mk-app] #1220 %Poly%fun%1. #33
[mk-app] #1221 Poly%fun%1. #1220
[mk-app] #1222 = #33 #1221
[mk-app] #1223 => #1219 #1222
[mk-app] #1224 pattern #1219
[mk-quant] #1225 internal_crate__fun__1_unbox_axiom_definition 5 #1224 #1223
[attach-var-names] #1225 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1226 not #1219
[mk-app] #1227 or #1226 #1222
[inst-discovered] theory-solving 0x0 basic# ; #1223
[mk-app] #1228 = #1223 #1227
[instance] 0x0 #1228
[attach-enode] #1228 0
[end-of-instance]
[mk-quant] #1228 internal_crate__fun__1_unbox_axiom_definition 5 #1224 #1227
[attach-var-names] #1228 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-var] #1229 4
[mk-app] #1230 has_type #33 #1229
[mk-var] #1231 1
[mk-app] #1232 %%apply%%0 #1231 #33
[mk-app] #1233 has_type #1232 #263
[mk-app] #1234 => #1230 #1233
[mk-app] #1235 pattern #1233
[mk-quant] #1236 internal_crate__fun__1_constructor_inner_definition 1 #1235 #1234
[attach-var-names] #1236 (|T%0| ; |Poly|)
[mk-app] #1237 Poly%fun%1. #157
[mk-app] #1238 has_type #1237 #1218
[mk-app] #1239 => #1236 #1238
[mk-app] #1240 pattern #1238
[mk-quant] #1241 internal_crate__fun__1_constructor_definition 5 #1240 #1239
[attach-var-names] #1241 (|x| ; |%%Function%%|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1242 not #1230
[mk-app] #1243 or #1242 #1233
[inst-discovered] theory-solving 0x0 basic# ; #1234
[mk-app] #1244 = #1234 #1243
[instance] 0x0 #1244
[attach-enode] #1244 0
[end-of-instance]
[mk-quant] #1244 internal_crate__fun__1_constructor_inner_definition 1 #1235 #1243
[attach-var-names] #1244 (|T%0| ; |Poly|)
[mk-app] #1245 not #1244
[mk-app] #1246 or #1245 #1238
[mk-app] #1247 => #1244 #1238
[inst-discovered] theory-solving 0x0 basic# ; #1247
[mk-app] #1248 = #1247 #1246
[instance] 0x0 #1248
[attach-enode] #1248 0
[end-of-instance]
[mk-quant] #1247 internal_crate__fun__1_constructor_definition 5 #1240 #1246
[attach-var-names] #1247 (|x| ; |%%Function%%|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-var] #1248 5
[mk-var] #1249 3
[mk-app] #1250 TYPE%fun%1. #1248 #1229 #1249 #263
[mk-app] #1251 has_type #1211 #1250
[mk-app] #1252 has_type #32 #1229
[mk-app] #1253 and #1251 #1252
[mk-app] #1254 %%apply%%0 #156 #32
[mk-app] #1255 has_type #1254 #263
[mk-app] #1256 => #1253 #1255
[mk-app] #1257 pattern #1254 #1251
[mk-quant] #1258 internal_crate__fun__1_apply_definition 6 #1257 #1256
[attach-var-names] #1258 (|x| ; |%%Function%%|) (|T%0| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1259 not #1253
[mk-app] #1260 or #1259 #1255
[inst-discovered] theory-solving 0x0 basic# ; #1256
[mk-app] #1261 = #1256 #1260
[instance] 0x0 #1261
[attach-enode] #1261 0
[end-of-instance]
[mk-quant] #1261 internal_crate__fun__1_apply_definition 6 #1257 #1260
[attach-var-names] #1261 (|x| ; |%%Function%%|) (|T%0| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1262 height #1254
[mk-app] #1263 fun_from_recursive_field #1237
[mk-app] #1264 height #1263
[mk-app] #1265 height_lt #1262 #1264
[mk-app] #1266 => #1253 #1265
[mk-app] #1267 pattern #1262 #1251
[mk-quant] #1268 internal_crate__fun__1_height_apply_definition 6 #1267 #1266
[attach-var-names] #1268 (|x| ; |%%Function%%|) (|T%0| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1269 or #1259 #1265
[inst-discovered] theory-solving 0x0 basic# ; #1266
[mk-app] #1270 = #1266 #1269
[instance] 0x0 #1270
[attach-enode] #1270 0
[end-of-instance]
[mk-quant] #1270 internal_crate__fun__1_height_apply_definition 6 #1267 #1269
[attach-var-names] #1270 (|x| ; |%%Function%%|) (|T%0| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-var] #1271 6
[mk-var] #1272 5
[mk-var] #1273 2
[mk-app] #1274 TYPE%fun%1. #1271 #1272 #1216 #1217
[mk-app] #1275 has_type #32 #1274
[mk-app] #1276 has_type #33 #1274
[mk-var] #1277 6
[mk-app] #1278 has_type #33 #1277
[mk-app] #1279 %Poly%fun%1. #43
[mk-app] #1280 %%apply%%0 #1279 #33
[mk-app] #1281 %Poly%fun%1. #32
[mk-app] #1282 %%apply%%0 #1281 #33
[mk-app] #1283 ext_eq #262 #1229 #1280 #1282
[mk-app] #1284 => #1278 #1283
[mk-app] #1285 pattern #1283
[mk-quant] #1286 internal_crate__fun__1_inner_ext_equal_definition 1 #1285 #1284
[attach-var-names] #1286 (|T%0| ; |Poly|)
[mk-app] #1287 and #1275 #1276 #1286
[mk-app] #1288 ext_eq #1273 #1274 #32 #33
[mk-app] #1289 => #1287 #1288
[mk-app] #1290 pattern #1288
[mk-quant] #1291 internal_crate__fun__1_ext_equal_definition 7 #1290 #1289
[attach-var-names] #1291 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1292 not #1278
[mk-app] #1293 or #1292 #1283
[inst-discovered] theory-solving 0x0 basic# ; #1284
[mk-app] #1294 = #1284 #1293
[instance] 0x0 #1294
[attach-enode] #1294 0
[end-of-instance]
[mk-quant] #1294 internal_crate__fun__1_inner_ext_equal_definition 1 #1285 #1293
[attach-var-names] #1294 (|T%0| ; |Poly|)
[mk-app] #1295 and #1275 #1276 #1294
[mk-app] #1296 not #1295
[mk-app] #1297 or #1296 #1288
[mk-app] #1298 => #1295 #1288
[inst-discovered] theory-solving 0x0 basic# ; #1298
[mk-app] #1299 = #1298 #1297
[instance] 0x0 #1299
[attach-enode] #1299 0
[end-of-instance]
[mk-quant] #1298 internal_crate__fun__1_ext_equal_definition 7 #1290 #1297
[attach-var-names] #1298 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #1299 Poly%array%. #156
[mk-app] #1300 %Poly%array%. #1299
[mk-app] #1301 = #156 #1300
[mk-app] #1302 pattern #1299
[mk-quant] #1303 internal_crate__array___box_axiom_definition 1 #1302 #1301
[attach-var-names] #1303 (|x| ; |%%Function%%|)
[mk-app] #1304 ARRAY #1216 #1217 #64 #65
[mk-app] #1305 has_type #33 #1304
[mk-app] #1306 %Poly%array%. #33
[mk-app] #1307 Poly%array%. #1306
[mk-app] #1308 = #33 #1307
[mk-app] #1309 => #1305 #1308
[mk-app] #1310 pattern #1305
[mk-quant] #1311 internal_crate__array___unbox_axiom_definition 5 #1310 #1309
[attach-var-names] #1311 (|x| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1312 not #1305
[mk-app] #1313 or #1312 #1308
[inst-discovered] theory-solving 0x0 basic# ; #1309
[mk-app] #1314 = #1309 #1313
[instance] 0x0 #1314
[attach-enode] #1314 0
[end-of-instance]
[mk-quant] #1314 internal_crate__array___unbox_axiom_definition 5 #1310 #1313
[attach-var-names] #1314 (|x| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #1315 0
[mk-app] #1316 Poly%alloc!alloc.Global. #1315
[mk-app] #1317 %Poly%alloc!alloc.Global. #1316
[mk-app] #1318 = #1315 #1317
[mk-app] #1319 pattern #1316
[mk-quant] #1320 internal_alloc__alloc__Global_box_axiom_definition 1 #1319 #1318
[attach-var-names] #1320 (|x| ; |alloc!alloc.Global.|)
[mk-app] #1321 TYPE%alloc!alloc.Global.
[mk-app] #1322 has_type #33 #1321
[mk-app] #1323 %Poly%alloc!alloc.Global. #33
[mk-app] #1324 Poly%alloc!alloc.Global. #1323
[mk-app] #1325 = #33 #1324
[mk-app] #1326 => #1322 #1325
[mk-app] #1327 pattern #1322
[mk-quant] #1328 internal_alloc__alloc__Global_unbox_axiom_definition 1 #1327 #1326
[attach-var-names] #1328 (|x| ; |Poly|)
[mk-app] #1329 not #1322
[mk-app] #1330 or #1329 #1325
[inst-discovered] theory-solving 0x0 basic# ; #1326
[mk-app] #1331 = #1326 #1330
[instance] 0x0 #1331
[attach-enode] #1331 0
[end-of-instance]
[mk-quant] #1331 internal_alloc__alloc__Global_unbox_axiom_definition 1 #1327 #1330
[attach-var-names] #1331 (|x| ; |Poly|)
[mk-app] #1332 has_type #1316 #1321
[mk-app] #1333 pattern #1332
[mk-quant] #1334 internal_alloc__alloc__Global_has_type_always_definition 1 #1333 #1332
[attach-var-names] #1334 (|x| ; |alloc!alloc.Global.|)
[mk-var] #1335 0
[mk-app] #1336 Poly%alloc!string.String. #1335
[mk-app] #1337 %Poly%alloc!string.String. #1336
[mk-app] #1338 = #1335 #1337
[mk-app] #1339 pattern #1336
[mk-quant] #1340 internal_alloc__string__String_box_axiom_definition 1 #1339 #1338
[attach-var-names] #1340 (|x| ; |alloc!string.String.|)
[mk-app] #1341 TYPE%alloc!string.String.
[mk-app] #1342 has_type #33 #1341
[mk-app] #1343 %Poly%alloc!string.String. #33
[mk-app] #1344 Poly%alloc!string.String. #1343
[mk-app] #1345 = #33 #1344
[mk-app] #1346 => #1342 #1345
[mk-app] #1347 pattern #1342
[mk-quant] #1348 internal_alloc__string__String_unbox_axiom_definition 1 #1347 #1346
[attach-var-names] #1348 (|x| ; |Poly|)
[mk-app] #1349 not #1342
[mk-app] #1350 or #1349 #1345
[inst-discovered] theory-solving 0x0 basic# ; #1346
[mk-app] #1351 = #1346 #1350
[instance] 0x0 #1351
[attach-enode] #1351 0
[end-of-instance]
[mk-quant] #1351 internal_alloc__string__String_unbox_axiom_definition 1 #1347 #1350
[attach-var-names] #1351 (|x| ; |Poly|)
[mk-app] #1352 has_type #1336 #1341
[mk-app] #1353 pattern #1352
[mk-quant] #1354 internal_alloc__string__String_has_type_always_definition 1 #1353 #1352
[attach-var-names] #1354 (|x| ; |alloc!string.String.|)
[mk-var] #1355 0
[mk-app] #1356 Poly%alloc!vec.Vec<alloc!string.String./alloc!alloc.Global.>. #1355
[mk-app] #1357 %Poly%alloc!vec.Vec<alloc!string.String./alloc!alloc.Global.>. #1356
[mk-app] #1358 = #1355 #1357
[mk-app] #1359 pattern #1356
[mk-quant] #1360 internal_alloc__vec__Vec<alloc!string.String./alloc!alloc.Global.>_box_axiom_definition 1 #1359 #1358
[attach-var-names] #1360 (|x| ; |alloc!vec.Vec<alloc!string.String./alloc!alloc.Global.>.|)
[mk-app] #1361 TYPE%alloc!vec.Vec. #120 #1341 #120 #1321
[mk-app] #1362 has_type #33 #1361
[mk-app] #1363 %Poly%alloc!vec.Vec<alloc!string.String./alloc!alloc.Global.>. #33
[mk-app] #1364 Poly%alloc!vec.Vec<alloc!string.String./alloc!alloc.Global.>. #1363
[mk-app] #1365 = #33 #1364
[mk-app] #1366 => #1362 #1365
[mk-app] #1367 pattern #1362
[mk-quant] #1368 internal_alloc__vec__Vec<alloc!string.String./alloc!alloc.Global.>_unbox_axiom_definition 1 #1367 #1366
[attach-var-names] #1368 (|x| ; |Poly|)
[mk-app] #1369 not #1362
[mk-app] #1370 or #1369 #1365
[inst-discovered] theory-solving 0x0 basic# ; #1366
[mk-app] #1371 = #1366 #1370
[instance] 0x0 #1371
[attach-enode] #1371 0
[end-of-instance]
[mk-quant] #1371 internal_alloc__vec__Vec<alloc!string.String./alloc!alloc.Global.>_unbox_axiom_definition 1 #1367 #1370
[attach-var-names] #1371 (|x| ; |Poly|)
[mk-app] #1372 has_type #1356 #1361
[mk-app] #1373 pattern #1372
[mk-quant] #1374 internal_alloc__vec__Vec<alloc!string.String./alloc!alloc.Global.>_has_type_always_definition 1 #1373 #1372
[attach-var-names] #1374 (|x| ; |alloc!vec.Vec<alloc!string.String./alloc!alloc.Global.>.|)
[mk-var] #1375 0
[mk-app] #1376 Poly%alloc!vec.Vec<u_tokenizer!error.Error./alloc!alloc.Global.>. #1375
[mk-app] #1377 %Poly%alloc!vec.Vec<u_tokenizer!error.Error./alloc!alloc.Global.>. #1376
[mk-app] #1378 = #1375 #1377
[mk-app] #1379 pattern #1376
[mk-quant] #1380 internal_alloc__vec__Vec<u_tokenizer!error.Error./alloc!alloc.Global.>_box_axiom_definition 1 #1379 #1378
[attach-var-names] #1380 (|x| ; |alloc!vec.Vec<u_tokenizer!error.Error./alloc!alloc.Global.>.|)
[mk-app] #1381 TYPE%u_tokenizer!error.Error.
[mk-app] #1382 TYPE%alloc!vec.Vec. #120 #1381 #120 #1321
[mk-app] #1383 has_type #33 #1382
[mk-app] #1384 %Poly%alloc!vec.Vec<u_tokenizer!error.Error./alloc!alloc.Global.>. #33
[mk-app] #1385 Poly%alloc!vec.Vec<u_tokenizer!error.Error./alloc!alloc.Global.>. #1384
[mk-app] #1386 = #33 #1385
[mk-app] #1387 => #1383 #1386
[mk-app] #1388 pattern #1383
[mk-quant] #1389 internal_alloc__vec__Vec<u_tokenizer!error.Error./alloc!alloc.Global.>_unbox_axiom_definition 1 #1388 #1387
[attach-var-names] #1389 (|x| ; |Poly|)
[mk-app] #1390 not #1383
[mk-app] #1391 or #1390 #1386
[inst-discovered] theory-solving 0x0 basic# ; #1387
[mk-app] #1392 = #1387 #1391
[instance] 0x0 #1392
[attach-enode] #1392 0
[end-of-instance]
[mk-quant] #1392 internal_alloc__vec__Vec<u_tokenizer!error.Error./alloc!alloc.Global.>_unbox_axiom_definition 1 #1388 #1391
[attach-var-names] #1392 (|x| ; |Poly|)
[mk-app] #1393 has_type #1376 #1382
[mk-app] #1394 pattern #1393
[mk-quant] #1395 internal_alloc__vec__Vec<u_tokenizer!error.Error./alloc!alloc.Global.>_has_type_always_definition 1 #1394 #1393
[attach-var-names] #1395 (|x| ; |alloc!vec.Vec<u_tokenizer!error.Error./alloc!alloc.Global.>.|)
[mk-var] #1396 0
[mk-app] #1397 Poly%alloc!vec.Vec<u_tokenizer!token.Token./alloc!alloc.Global.>. #1396
[mk-app] #1398 %Poly%alloc!vec.Vec<u_tokenizer!token.Token./alloc!alloc.Global.>. #1397
[mk-app] #1399 = #1396 #1398
[mk-app] #1400 pattern #1397
[mk-quant] #1401 internal_alloc__vec__Vec<u_tokenizer!token.Token./alloc!alloc.Global.>_box_axiom_definition 1 #1400 #1399
[attach-var-names] #1401 (|x| ; |alloc!vec.Vec<u_tokenizer!token.Token./alloc!alloc.Global.>.|)
[mk-app] #1402 TYPE%u_tokenizer!token.Token.
[mk-app] #1403 TYPE%alloc!vec.Vec. #120 #1402 #120 #1321
[mk-app] #1404 has_type #33 #1403
[mk-app] #1405 %Poly%alloc!vec.Vec<u_tokenizer!token.Token./alloc!alloc.Global.>. #33
[mk-app] #1406 Poly%alloc!vec.Vec<u_tokenizer!token.Token./alloc!alloc.Global.>. #1405
[mk-app] #1407 = #33 #1406
[mk-app] #1408 => #1404 #1407
[mk-app] #1409 pattern #1404
[mk-quant] #1410 internal_alloc__vec__Vec<u_tokenizer!token.Token./alloc!alloc.Global.>_unbox_axiom_definition 1 #1409 #1408
[attach-var-names] #1410 (|x| ; |Poly|)
[mk-app] #1411 not #1404
[mk-app] #1412 or #1411 #1407
[inst-discovered] theory-solving 0x0 basic# ; #1408
[mk-app] #1413 = #1408 #1412
[instance] 0x0 #1413
[attach-enode] #1413 0
[end-of-instance]
[mk-quant] #1413 internal_alloc__vec__Vec<u_tokenizer!token.Token./alloc!alloc.Global.>_unbox_axiom_definition 1 #1409 #1412
[attach-var-names] #1413 (|x| ; |Poly|)
[mk-app] #1414 has_type #1397 #1403
[mk-app] #1415 pattern #1414
[mk-quant] #1416 internal_alloc__vec__Vec<u_tokenizer!token.Token./alloc!alloc.Global.>_has_type_always_definition 1 #1415 #1414
[attach-var-names] #1416 (|x| ; |alloc!vec.Vec<u_tokenizer!token.Token./alloc!alloc.Global.>.|)
[mk-var] #1417 0
[mk-app] #1418 Poly%vstd!raw_ptr.Provenance. #1417
[mk-app] #1419 %Poly%vstd!raw_ptr.Provenance. #1418
[mk-app] #1420 = #1417 #1419
[mk-app] #1421 pattern #1418
[mk-quant] #1422 internal_vstd__raw_ptr__Provenance_box_axiom_definition 1 #1421 #1420
[attach-var-names] #1422 (|x| ; |vstd!raw_ptr.Provenance.|)
[mk-app] #1423 TYPE%vstd!raw_ptr.Provenance.
[mk-app] #1424 has_type #33 #1423
[mk-app] #1425 %Poly%vstd!raw_ptr.Provenance. #33
[mk-app] #1426 Poly%vstd!raw_ptr.Provenance. #1425
[mk-app] #1427 = #33 #1426
[mk-app] #1428 => #1424 #1427
[mk-app] #1429 pattern #1424
[mk-quant] #1430 internal_vstd__raw_ptr__Provenance_unbox_axiom_definition 1 #1429 #1428
[attach-var-names] #1430 (|x| ; |Poly|)
[mk-app] #1431 not #1424
[mk-app] #1432 or #1431 #1427
[inst-discovered] theory-solving 0x0 basic# ; #1428
[mk-app] #1433 = #1428 #1432
[instance] 0x0 #1433
[attach-enode] #1433 0
[end-of-instance]
[mk-quant] #1433 internal_vstd__raw_ptr__Provenance_unbox_axiom_definition 1 #1429 #1432
[attach-var-names] #1433 (|x| ; |Poly|)
[mk-app] #1434 has_type #1418 #1423
[mk-app] #1435 pattern #1434
[mk-quant] #1436 internal_vstd__raw_ptr__Provenance_has_type_always_definition 1 #1435 #1434
[attach-var-names] #1436 (|x| ; |vstd!raw_ptr.Provenance.|)
[mk-var] #1437 0
[mk-app] #1438 Poly%vstd!seq.Seq<usize.>. #1437
[mk-app] #1439 %Poly%vstd!seq.Seq<usize.>. #1438
[mk-app] #1440 = #1437 #1439
[mk-app] #1441 pattern #1438
[mk-quant] #1442 internal_vstd__seq__Seq<usize.>_box_axiom_definition 1 #1441 #1440
[attach-var-names] #1442 (|x| ; |vstd!seq.Seq<usize.>.|)
[mk-app] #1443 TYPE%vstd!seq.Seq. #120 #203
[mk-app] #1444 has_type #33 #1443
[mk-app] #1445 %Poly%vstd!seq.Seq<usize.>. #33
[mk-app] #1446 Poly%vstd!seq.Seq<usize.>. #1445
[mk-app] #1447 = #33 #1446
[mk-app] #1448 => #1444 #1447
[mk-app] #1449 pattern #1444
[mk-quant] #1450 internal_vstd__seq__Seq<usize.>_unbox_axiom_definition 1 #1449 #1448
[attach-var-names] #1450 (|x| ; |Poly|)
[mk-app] #1451 not #1444
[mk-app] #1452 or #1451 #1447
[inst-discovered] theory-solving 0x0 basic# ; #1448
[mk-app] #1453 = #1448 #1452
[instance] 0x0 #1453
[attach-enode] #1453 0
[end-of-instance]
[mk-quant] #1453 internal_vstd__seq__Seq<usize.>_unbox_axiom_definition 1 #1449 #1452
[attach-var-names] #1453 (|x| ; |Poly|)
[mk-app] #1454 has_type #1438 #1443
[mk-app] #1455 pattern #1454
[mk-quant] #1456 internal_vstd__seq__Seq<usize.>_has_type_always_definition 1 #1455 #1454
[attach-var-names] #1456 (|x| ; |vstd!seq.Seq<usize.>.|)
[mk-var] #1457 0
[mk-app] #1458 Poly%vstd!seq.Seq<char.>. #1457
[mk-app] #1459 %Poly%vstd!seq.Seq<char.>. #1458
[mk-app] #1460 = #1457 #1459
[mk-app] #1461 pattern #1458
[mk-quant] #1462 internal_vstd__seq__Seq<char.>_box_axiom_definition 1 #1461 #1460
[attach-var-names] #1462 (|x| ; |vstd!seq.Seq<char.>.|)
[mk-app] #1463 TYPE%vstd!seq.Seq. #120 #244
[mk-app] #1464 has_type #33 #1463
[mk-app] #1465 %Poly%vstd!seq.Seq<char.>. #33
[mk-app] #1466 Poly%vstd!seq.Seq<char.>. #1465
[mk-app] #1467 = #33 #1466
[mk-app] #1468 => #1464 #1467
[mk-app] #1469 pattern #1464
[mk-quant] #1470 internal_vstd__seq__Seq<char.>_unbox_axiom_definition 1 #1469 #1468
[attach-var-names] #1470 (|x| ; |Poly|)
[mk-app] #1471 not #1464
[mk-app] #1472 or #1471 #1467
[inst-discovered] theory-solving 0x0 basic# ; #1468
[mk-app] #1473 = #1468 #1472
[instance] 0x0 #1473
[attach-enode] #1473 0
[end-of-instance]
[mk-quant] #1473 internal_vstd__seq__Seq<char.>_unbox_axiom_definition 1 #1469 #1472
[attach-var-names] #1473 (|x| ; |Poly|)
[mk-app] #1474 has_type #1458 #1463
[mk-app] #1475 pattern #1474
[mk-quant] #1476 internal_vstd__seq__Seq<char.>_has_type_always_definition 1 #1475 #1474
[attach-var-names] #1476 (|x| ; |vstd!seq.Seq<char.>.|)
[mk-var] #1477 0
[mk-app] #1478 Poly%vstd!seq.Seq<alloc!string.String.>. #1477
[mk-app] #1479 %Poly%vstd!seq.Seq<alloc!string.String.>. #1478
[mk-app] #1480 = #1477 #1479
[mk-app] #1481 pattern #1478
[mk-quant] #1482 internal_vstd__seq__Seq<alloc!string.String.>_box_axiom_definition 1 #1481 #1480
[attach-var-names] #1482 (|x| ; |vstd!seq.Seq<alloc!string.String.>.|)
[mk-app] #1483 TYPE%vstd!seq.Seq. #120 #1341
[mk-app] #1484 has_type #33 #1483
[mk-app] #1485 %Poly%vstd!seq.Seq<alloc!string.String.>. #33
[mk-app] #1486 Poly%vstd!seq.Seq<alloc!string.String.>. #1485
[mk-app] #1487 = #33 #1486
[mk-app] #1488 => #1484 #1487
[mk-app] #1489 pattern #1484
[mk-quant] #1490 internal_vstd__seq__Seq<alloc!string.String.>_unbox_axiom_definition 1 #1489 #1488
[attach-var-names] #1490 (|x| ; |Poly|)
[mk-app] #1491 not #1484
[mk-app] #1492 or #1491 #1487
[inst-discovered] theory-solving 0x0 basic# ; #1488
[mk-app] #1493 = #1488 #1492
[instance] 0x0 #1493
[attach-enode] #1493 0
[end-of-instance]
[mk-quant] #1493 internal_vstd__seq__Seq<alloc!string.String.>_unbox_axiom_definition 1 #1489 #1492
[attach-var-names] #1493 (|x| ; |Poly|)
[mk-app] #1494 has_type #1478 #1483
[mk-app] #1495 pattern #1494
[mk-quant] #1496 internal_vstd__seq__Seq<alloc!string.String.>_has_type_always_definition 1 #1495 #1494
[attach-var-names] #1496 (|x| ; |vstd!seq.Seq<alloc!string.String.>.|)
[mk-var] #1497 0
[mk-app] #1498 Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #1497
[mk-app] #1499 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #1498
[mk-app] #1500 = #1497 #1499
[mk-app] #1501 pattern #1498
[mk-quant] #1502 internal_vstd__seq__Seq<vstd!seq.Seq<char.>.>_box_axiom_definition 1 #1501 #1500
[attach-var-names] #1502 (|x| ; |vstd!seq.Seq<vstd!seq.Seq<char.>.>.|)
[mk-app] #1503 TYPE%vstd!seq.Seq. #120 #1463
[mk-app] #1504 has_type #33 #1503
[mk-app] #1505 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #33
[mk-app] #1506 Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #1505
[mk-app] #1507 = #33 #1506
[mk-app] #1508 => #1504 #1507
[mk-app] #1509 pattern #1504
[mk-quant] #1510 internal_vstd__seq__Seq<vstd!seq.Seq<char.>.>_unbox_axiom_definition 1 #1509 #1508
[attach-var-names] #1510 (|x| ; |Poly|)
[mk-app] #1511 not #1504
[mk-app] #1512 or #1511 #1507
[inst-discovered] theory-solving 0x0 basic# ; #1508
[mk-app] #1513 = #1508 #1512
[instance] 0x0 #1513
[attach-enode] #1513 0
[end-of-instance]
[mk-quant] #1513 internal_vstd__seq__Seq<vstd!seq.Seq<char.>.>_unbox_axiom_definition 1 #1509 #1512
[attach-var-names] #1513 (|x| ; |Poly|)
[mk-app] #1514 has_type #1498 #1503
[mk-app] #1515 pattern #1514
[mk-quant] #1516 internal_vstd__seq__Seq<vstd!seq.Seq<char.>.>_has_type_always_definition 1 #1515 #1514
[attach-var-names] #1516 (|x| ; |vstd!seq.Seq<vstd!seq.Seq<char.>.>.|)
[mk-var] #1517 0
[mk-app] #1518 Poly%vstd!seq.Seq<u_tokenizer!error.Error.>. #1517
[mk-app] #1519 %Poly%vstd!seq.Seq<u_tokenizer!error.Error.>. #1518
[mk-app] #1520 = #1517 #1519
[mk-app] #1521 pattern #1518
[mk-quant] #1522 internal_vstd__seq__Seq<u_tokenizer!error.Error.>_box_axiom_definition 1 #1521 #1520
[attach-var-names] #1522 (|x| ; |vstd!seq.Seq<u_tokenizer!error.Error.>.|)
[mk-app] #1523 TYPE%vstd!seq.Seq. #120 #1381
[mk-app] #1524 has_type #33 #1523
[mk-app] #1525 %Poly%vstd!seq.Seq<u_tokenizer!error.Error.>. #33
[mk-app] #1526 Poly%vstd!seq.Seq<u_tokenizer!error.Error.>. #1525
[mk-app] #1527 = #33 #1526
[mk-app] #1528 => #1524 #1527
[mk-app] #1529 pattern #1524
[mk-quant] #1530 internal_vstd__seq__Seq<u_tokenizer!error.Error.>_unbox_axiom_definition 1 #1529 #1528
[attach-var-names] #1530 (|x| ; |Poly|)
[mk-app] #1531 not #1524
[mk-app] #1532 or #1531 #1527
[inst-discovered] theory-solving 0x0 basic# ; #1528
[mk-app] #1533 = #1528 #1532
[instance] 0x0 #1533
[attach-enode] #1533 0
[end-of-instance]
[mk-quant] #1533 internal_vstd__seq__Seq<u_tokenizer!error.Error.>_unbox_axiom_definition 1 #1529 #1532
[attach-var-names] #1533 (|x| ; |Poly|)
[mk-app] #1534 has_type #1518 #1523
[mk-app] #1535 pattern #1534
[mk-quant] #1536 internal_vstd__seq__Seq<u_tokenizer!error.Error.>_has_type_always_definition 1 #1535 #1534
[attach-var-names] #1536 (|x| ; |vstd!seq.Seq<u_tokenizer!error.Error.>.|)
[mk-var] #1537 0
[mk-app] #1538 Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #1537
[mk-app] #1539 %Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #1538
[mk-app] #1540 = #1537 #1539
[mk-app] #1541 pattern #1538
[mk-quant] #1542 internal_vstd__seq__Seq<u_tokenizer!lex.Tok.>_box_axiom_definition 1 #1541 #1540
[attach-var-names] #1542 (|x| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|)
[mk-app] #1543 TYPE%u_tokenizer!lex.Tok.
[mk-app] #1544 TYPE%vstd!seq.Seq. #120 #1543
[mk-app] #1545 has_type #33 #1544
[mk-app] #1546 %Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #33
[mk-app] #1547 Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #1546
[mk-app] #1548 = #33 #1547
[mk-app] #1549 => #1545 #1548
[mk-app] #1550 pattern #1545
[mk-quant] #1551 internal_vstd__seq__Seq<u_tokenizer!lex.Tok.>_unbox_axiom_definition 1 #1550 #1549
[attach-var-names] #1551 (|x| ; |Poly|)
[mk-app] #1552 not #1545
[mk-app] #1553 or #1552 #1548
[inst-discovered] theory-solving 0x0 basic# ; #1549
[mk-app] #1554 = #1549 #1553
[instance] 0x0 #1554
[attach-enode] #1554 0
[end-of-instance]
[mk-quant] #1554 internal_vstd__seq__Seq<u_tokenizer!lex.Tok.>_unbox_axiom_definition 1 #1550 #1553
[attach-var-names] #1554 (|x| ; |Poly|)
[mk-app] #1555 has_type #1538 #1544
[mk-app] #1556 pattern #1555
[mk-quant] #1557 internal_vstd__seq__Seq<u_tokenizer!lex.Tok.>_has_type_always_definition 1 #1556 #1555
[attach-var-names] #1557 (|x| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|)
[mk-var] #1558 0
[mk-app] #1559 Poly%vstd!seq.Seq<u_tokenizer!token.Token.>. #1558
[mk-app] #1560 %Poly%vstd!seq.Seq<u_tokenizer!token.Token.>. #1559
[mk-app] #1561 = #1558 #1560
[mk-app] #1562 pattern #1559
[mk-quant] #1563 internal_vstd__seq__Seq<u_tokenizer!token.Token.>_box_axiom_definition 1 #1562 #1561
[attach-var-names] #1563 (|x| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|)
[mk-app] #1564 TYPE%vstd!seq.Seq. #120 #1402
[mk-app] #1565 has_type #33 #1564
[mk-app] #1566 %Poly%vstd!seq.Seq<u_tokenizer!token.Token.>. #33
[mk-app] #1567 Poly%vstd!seq.Seq<u_tokenizer!token.Token.>. #1566
[mk-app] #1568 = #33 #1567
[mk-app] #1569 => #1565 #1568
[mk-app] #1570 pattern #1565
[mk-quant] #1571 internal_vstd__seq__Seq<u_tokenizer!token.Token.>_unbox_axiom_definition 1 #1570 #1569
[attach-var-names] #1571 (|x| ; |Poly|)
[mk-app] #1572 not #1565
[mk-app] #1573 or #1572 #1568
[inst-discovered] theory-solving 0x0 basic# ; #1569
[mk-app] #1574 = #1569 #1573
[instance] 0x0 #1574
[attach-enode] #1574 0
[end-of-instance]
[mk-quant] #1574 internal_vstd__seq__Seq<u_tokenizer!token.Token.>_unbox_axiom_definition 1 #1570 #1573
[attach-var-names] #1574 (|x| ; |Poly|)
[mk-app] #1575 has_type #1559 #1564
[mk-app] #1576 pattern #1575
[mk-quant] #1577 internal_vstd__seq__Seq<u_tokenizer!token.Token.>_has_type_always_definition 1 #1576 #1575
[attach-var-names] #1577 (|x| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|)
[mk-var] #1578 0
[mk-app] #1579 Poly%u_tokenizer!error.Error. #1578
[mk-app] #1580 %Poly%u_tokenizer!error.Error. #1579
[mk-app] #1581 = #1578 #1580
[mk-app] #1582 pattern #1579
[mk-quant] #1583 internal_u_tokenizer__error__Error_box_axiom_definition 1 #1582 #1581
[attach-var-names] #1583 (|x| ; |u_tokenizer!error.Error.|)
[mk-app] #1584 has_type #33 #1381
[mk-app] #1585 %Poly%u_tokenizer!error.Error. #33
[mk-app] #1586 Poly%u_tokenizer!error.Error. #1585
[mk-app] #1587 = #33 #1586
[mk-app] #1588 => #1584 #1587
[mk-app] #1589 pattern #1584
[mk-quant] #1590 internal_u_tokenizer__error__Error_unbox_axiom_definition 1 #1589 #1588
[attach-var-names] #1590 (|x| ; |Poly|)
[mk-app] #1591 not #1584
[mk-app] #1592 or #1591 #1587
[inst-discovered] theory-solving 0x0 basic# ; #1588
[mk-app] #1593 = #1588 #1592
[instance] 0x0 #1593
[attach-enode] #1593 0
[end-of-instance]
[mk-quant] #1593 internal_u_tokenizer__error__Error_unbox_axiom_definition 1 #1589 #1592
[attach-var-names] #1593 (|x| ; |Poly|)
[mk-app] #1594 has_type #1579 #1381
[mk-app] #1595 pattern #1594
[mk-quant] #1596 internal_u_tokenizer__error__Error_has_type_always_definition 1 #1595 #1594
[attach-var-names] #1596 (|x| ; |u_tokenizer!error.Error.|)
[mk-var] #1597 0
[mk-app] #1598 Poly%u_tokenizer!identifier.Identifier. #1597
[mk-app] #1599 %Poly%u_tokenizer!identifier.Identifier. #1598
[mk-app] #1600 = #1597 #1599
[mk-app] #1601 pattern #1598
[mk-quant] #1602 internal_u_tokenizer__identifier__Identifier_box_axiom_definition 1 #1601 #1600
[attach-var-names] #1602 (|x| ; |u_tokenizer!identifier.Identifier.|)
[mk-app] #1603 TYPE%u_tokenizer!identifier.Identifier.
[mk-app] #1604 has_type #33 #1603
[mk-app] #1605 %Poly%u_tokenizer!identifier.Identifier. #33
[mk-app] #1606 Poly%u_tokenizer!identifier.Identifier. #1605
[mk-app] #1607 = #33 #1606
[mk-app] #1608 => #1604 #1607
[mk-app] #1609 pattern #1604
[mk-quant] #1610 internal_u_tokenizer__identifier__Identifier_unbox_axiom_definition 1 #1609 #1608
[attach-var-names] #1610 (|x| ; |Poly|)
[mk-app] #1611 not #1604
[mk-app] #1612 or #1611 #1607
[inst-discovered] theory-solving 0x0 basic# ; #1608
[mk-app] #1613 = #1608 #1612
[instance] 0x0 #1613
[attach-enode] #1613 0
[end-of-instance]
[mk-quant] #1613 internal_u_tokenizer__identifier__Identifier_unbox_axiom_definition 1 #1609 #1612
[attach-var-names] #1613 (|x| ; |Poly|)
[mk-app] #1614 has_type #1598 #1603
[mk-app] #1615 pattern #1614
[mk-quant] #1616 internal_u_tokenizer__identifier__Identifier_has_type_always_definition 1 #1615 #1614
[attach-var-names] #1616 (|x| ; |u_tokenizer!identifier.Identifier.|)
[mk-var] #1617 0
[mk-app] #1618 Poly%u_tokenizer!lex.CIter. #1617
[mk-app] #1619 %Poly%u_tokenizer!lex.CIter. #1618
[mk-app] #1620 = #1617 #1619
[mk-app] #1621 pattern #1618
[mk-quant] #1622 internal_u_tokenizer__lex__CIter_box_axiom_definition 1 #1621 #1620
[attach-var-names] #1622 (|x| ; |u_tokenizer!lex.CIter.|)
[mk-app] #1623 TYPE%u_tokenizer!lex.CIter.
[mk-app] #1624 has_type #33 #1623
[mk-app] #1625 %Poly%u_tokenizer!lex.CIter. #33
[mk-app] #1626 Poly%u_tokenizer!lex.CIter. #1625
[mk-app] #1627 = #33 #1626
[mk-app] #1628 => #1624 #1627
[mk-app] #1629 pattern #1624
[mk-quant] #1630 internal_u_tokenizer__lex__CIter_unbox_axiom_definition 1 #1629 #1628
[attach-var-names] #1630 (|x| ; |Poly|)
[mk-app] #1631 not #1624
[mk-app] #1632 or #1631 #1627
[inst-discovered] theory-solving 0x0 basic# ; #1628
[mk-app] #1633 = #1628 #1632
[instance] 0x0 #1633
[attach-enode] #1633 0
[end-of-instance]
[mk-quant] #1633 internal_u_tokenizer__lex__CIter_unbox_axiom_definition 1 #1629 #1632
[attach-var-names] #1633 (|x| ; |Poly|)
[mk-app] #1634 has_type #1618 #1623
[mk-app] #1635 pattern #1634
[mk-quant] #1636 internal_u_tokenizer__lex__CIter_has_type_always_definition 1 #1635 #1634
[attach-var-names] #1636 (|x| ; |u_tokenizer!lex.CIter.|)
[mk-var] #1637 0
[mk-app] #1638 Poly%u_tokenizer!lex.GraphemeCursor. #1637
[mk-app] #1639 %Poly%u_tokenizer!lex.GraphemeCursor. #1638
[mk-app] #1640 = #1637 #1639
[mk-app] #1641 pattern #1638
[mk-quant] #1642 internal_u_tokenizer__lex__GraphemeCursor_box_axiom_definition 1 #1641 #1640
[attach-var-names] #1642 (|x| ; |u_tokenizer!lex.GraphemeCursor.|)
[mk-app] #1643 TYPE%u_tokenizer!lex.GraphemeCursor.
[mk-app] #1644 has_type #33 #1643
[mk-app] #1645 %Poly%u_tokenizer!lex.GraphemeCursor. #33
[mk-app] #1646 Poly%u_tokenizer!lex.GraphemeCursor. #1645
[mk-app] #1647 = #33 #1646
[mk-app] #1648 => #1644 #1647
[mk-app] #1649 pattern #1644
[mk-quant] #1650 internal_u_tokenizer__lex__GraphemeCursor_unbox_axiom_definition 1 #1649 #1648
[attach-var-names] #1650 (|x| ; |Poly|)
[mk-app] #1651 not #1644
[mk-app] #1652 or #1651 #1647
[inst-discovered] theory-solving 0x0 basic# ; #1648
[mk-app] #1653 = #1648 #1652
[instance] 0x0 #1653
[attach-enode] #1653 0
[end-of-instance]
[mk-quant] #1653 internal_u_tokenizer__lex__GraphemeCursor_unbox_axiom_definition 1 #1649 #1652
[attach-var-names] #1653 (|x| ; |Poly|)
[mk-app] #1654 has_type #1638 #1643
[mk-app] #1655 pattern #1654
[mk-quant] #1656 internal_u_tokenizer__lex__GraphemeCursor_has_type_always_definition 1 #1655 #1654
[attach-var-names] #1656 (|x| ; |u_tokenizer!lex.GraphemeCursor.|)
[mk-var] #1657 0
[mk-app] #1658 Poly%u_tokenizer!shim.PathBuf. #1657
[mk-app] #1659 %Poly%u_tokenizer!shim.PathBuf. #1658
[mk-app] #1660 = #1657 #1659
[mk-app] #1661 pattern #1658
[mk-quant] #1662 internal_u_tokenizer__shim__PathBuf_box_axiom_definition 1 #1661 #1660
[attach-var-names] #1662 (|x| ; |u_tokenizer!shim.PathBuf.|)
[mk-app] #1663 TYPE%u_tokenizer!shim.PathBuf.
[mk-app] #1664 has_type #33 #1663
[mk-app] #1665 %Poly%u_tokenizer!shim.PathBuf. #33
[mk-app] #1666 Poly%u_tokenizer!shim.PathBuf. #1665
[mk-app] #1667 = #33 #1666
[mk-app] #1668 => #1664 #1667
[mk-app] #1669 pattern #1664
[mk-quant] #1670 internal_u_tokenizer__shim__PathBuf_unbox_axiom_definition 1 #1669 #1668
[attach-var-names] #1670 (|x| ; |Poly|)
[mk-app] #1671 not #1664
[mk-app] #1672 or #1671 #1667
[inst-discovered] theory-solving 0x0 basic# ; #1668
[mk-app] #1673 = #1668 #1672
[instance] 0x0 #1673
[attach-enode] #1673 0
[end-of-instance]
[mk-quant] #1673 internal_u_tokenizer__shim__PathBuf_unbox_axiom_definition 1 #1669 #1672
[attach-var-names] #1673 (|x| ; |Poly|)
[mk-app] #1674 has_type #1658 #1663
[mk-app] #1675 pattern #1674
[mk-quant] #1676 internal_u_tokenizer__shim__PathBuf_has_type_always_definition 1 #1675 #1674
[attach-var-names] #1676 (|x| ; |u_tokenizer!shim.PathBuf.|)
[mk-var] #1677 0
[mk-app] #1678 Poly%strslice%. #1677
[mk-app] #1679 %Poly%strslice%. #1678
[mk-app] #1680 = #1677 #1679
[mk-app] #1681 pattern #1678
[mk-quant] #1682 internal_crate__strslice___box_axiom_definition 1 #1681 #1680
[attach-var-names] #1682 (|x| ; |strslice%.|)
[mk-app] #1683 STRSLICE
[mk-app] #1684 has_type #33 #1683
[mk-app] #1685 %Poly%strslice%. #33
[mk-app] #1686 Poly%strslice%. #1685
[mk-app] #1687 = #33 #1686
[mk-app] #1688 => #1684 #1687
[mk-app] #1689 pattern #1684
[mk-quant] #1690 internal_crate__strslice___unbox_axiom_definition 1 #1689 #1688
[attach-var-names] #1690 (|x| ; |Poly|)
[mk-app] #1691 not #1684
[mk-app] #1692 or #1691 #1687
[inst-discovered] theory-solving 0x0 basic# ; #1688
[mk-app] #1693 = #1688 #1692
[instance] 0x0 #1693
[attach-enode] #1693 0
[end-of-instance]
[mk-quant] #1693 internal_crate__strslice___unbox_axiom_definition 1 #1689 #1692
[attach-var-names] #1693 (|x| ; |Poly|)
[mk-app] #1694 has_type #1678 #1683
[mk-app] #1695 pattern #1694
[mk-quant] #1696 internal_crate__strslice___has_type_always_definition 1 #1695 #1694
[attach-var-names] #1696 (|x| ; |strslice%.|)
[mk-var] #1697 0
[mk-app] #1698 Poly%core!option.Option. #1697
[mk-app] #1699 %Poly%core!option.Option. #1698
[mk-app] #1700 = #1697 #1699
[mk-app] #1701 pattern #1698
[mk-quant] #1702 internal_core__option__Option_box_axiom_definition 1 #1701 #1700
[attach-var-names] #1702 (|x| ; |core!option.Option.|)
[mk-app] #1703 TYPE%core!option.Option. #64 #65
[mk-app] #1704 has_type #33 #1703
[mk-app] #1705 %Poly%core!option.Option. #33
[mk-app] #1706 Poly%core!option.Option. #1705
[mk-app] #1707 = #33 #1706
[mk-app] #1708 => #1704 #1707
[mk-app] #1709 pattern #1704
[mk-quant] #1710 internal_core__option__Option_unbox_axiom_definition 3 #1709 #1708
[attach-var-names] #1710 (|x| ; |Poly|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #1711 not #1704
[mk-app] #1712 or #1711 #1707
[inst-discovered] theory-solving 0x0 basic# ; #1708
[mk-app] #1713 = #1708 #1712
[instance] 0x0 #1713
[attach-enode] #1713 0
[end-of-instance]
[mk-quant] #1713 internal_core__option__Option_unbox_axiom_definition 3 #1709 #1712
[attach-var-names] #1713 (|x| ; |Poly|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #1714 core!option.Option./None
[mk-app] #1715 Poly%core!option.Option. #1714
[mk-app] #1716 TYPE%core!option.Option. #44 #45
[mk-app] #1717 has_type #1715 #1716
[mk-app] #1718 pattern #1717
[mk-quant] #1719 internal_core!option.Option./None_constructor_definition 2 #1718 #1717
[attach-var-names] #1719 (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #1720 core!option.Option./Some #33
[mk-app] #1721 Poly%core!option.Option. #1720
[mk-app] #1722 has_type #1721 #1703
[mk-app] #1723 => #68 #1722
[mk-app] #1724 pattern #1722
[mk-quant] #1725 internal_core!option.Option./Some_constructor_definition 3 #1724 #1723
[attach-var-names] #1725 (|_0!| ; |Poly|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #1726 not #68
[mk-app] #1727 or #1726 #1722
[inst-discovered] theory-solving 0x0 basic# ; #1723
[mk-app] #1728 = #1723 #1727
[instance] 0x0 #1728
[attach-enode] #1728 0
[end-of-instance]
[mk-quant] #1728 internal_core!option.Option./Some_constructor_definition 3 #1724 #1727
[attach-var-names] #1728 (|_0!| ; |Poly|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #1729 is-core!option.Option./Some #1697
[mk-app] #1730 core!option.Option./Some/0 #64 #65 #1697
[mk-app] #1731 core!option.Option./Some/?0 #1697
[mk-app] #1732 = #1730 #1731
[mk-app] #1733 => #1729 #1732
[mk-app] #1734 pattern #1730
[mk-quant] #1735 internal_core!option.Option./Some/0_accessor_definition 3 #1734 #1733
[attach-var-names] #1735 (|x| ; |core!option.Option.|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #1736 is #1697
[inst-discovered] theory-solving 0x0 datatype# ; #1729
[mk-app] #1737 = #1729 #1736
[instance] 0x0 #1737
[attach-enode] #1737 0
[end-of-instance]
[mk-app] #1737 not #1736
[mk-app] #1738 or #1737 #1732
[mk-app] #1739 => #1736 #1732
[inst-discovered] theory-solving 0x0 basic# ; #1739
[mk-app] #1740 = #1739 #1738
[instance] 0x0 #1740
[attach-enode] #1740 0
[end-of-instance]
[mk-quant] #1739 internal_core!option.Option./Some/0_accessor_definition 3 #1734 #1738
[attach-var-names] #1739 (|x| ; |core!option.Option.|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #1740 core!option.Option./Some/0 #64 #65 #1705
[mk-app] #1741 has_type #1740 #65
[mk-app] #1742 => #1704 #1741
[mk-app] #1743 pattern #1740 #1704
[mk-quant] #1744 internal_core!option.Option./Some/0_invariant_definition 3 #1743 #1742
[attach-var-names] #1744 (|x| ; |Poly|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #1745 or #1711 #1741
[inst-discovered] theory-solving 0x0 basic# ; #1742
[mk-app] #1746 = #1742 #1745
[instance] 0x0 #1746
[attach-enode] #1746 0
[end-of-instance]
[mk-quant] #1746 internal_core!option.Option./Some/0_invariant_definition 3 #1743 #1745
[attach-var-names] #1746 (|x| ; |Poly|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #1747 height #1730
[mk-app] #1748 height #1698
[mk-app] #1749 height_lt #1747 #1748
[mk-app] #1750 => #1729 #1749
[mk-app] #1751 pattern #1747
[mk-quant] #1752 prelude_datatype_height_core!option.Option./Some/0 3 #1751 #1750
[attach-var-names] #1752 (|x| ; |core!option.Option.|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #1729
[mk-app] #1753 = #1729 #1736
[instance] 0x0 #1753
[attach-enode] #1753 0
[end-of-instance]
[mk-app] #1753 or #1737 #1749
[mk-app] #1754 => #1736 #1749
[inst-discovered] theory-solving 0x0 basic# ; #1754
[mk-app] #1755 = #1754 #1753
[instance] 0x0 #1755
[attach-enode] #1755 0
[end-of-instance]
[mk-quant] #1754 prelude_datatype_height_core!option.Option./Some/0 3 #1751 #1753
[attach-var-names] #1754 (|x| ; |core!option.Option.|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #1755 TYPE%core!option.Option. #1216 #1217
[mk-app] #1756 has_type #32 #1755
[mk-app] #1757 has_type #33 #1755
[mk-app] #1758 %Poly%core!option.Option. #32
[mk-app] #1759 is-core!option.Option./None #1758
[mk-app] #1760 is-core!option.Option./None #1705
[mk-app] #1761 and #1756 #1757 #1759 #1760
[mk-app] #1762 ext_eq #1273 #1755 #32 #33
[mk-app] #1763 => #1761 #1762
[mk-app] #1764 pattern #1762
[mk-quant] #1765 internal_core!option.Option./None_ext_equal_definition 5 #1764 #1763
[attach-var-names] #1765 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #1766 is #1758
[inst-discovered] theory-solving 0x0 datatype# ; #1759
[mk-app] #1767 = #1759 #1766
[instance] 0x0 #1767
[attach-enode] #1767 0
[end-of-instance]
[mk-app] #1767 is #1705
[inst-discovered] theory-solving 0x0 datatype# ; #1760
[mk-app] #1768 = #1760 #1767
[instance] 0x0 #1768
[attach-enode] #1768 0
[end-of-instance]
[mk-app] #1768 and #1756 #1757 #1766 #1767
[mk-app] #1769 not #1768
[mk-app] #1770 or #1769 #1762
[mk-app] #1771 => #1768 #1762
[inst-discovered] theory-solving 0x0 basic# ; #1771
[mk-app] #1772 = #1771 #1770
[instance] 0x0 #1772
[attach-enode] #1772 0
[end-of-instance]
[mk-quant] #1771 internal_core!option.Option./None_ext_equal_definition 5 #1764 #1770
[attach-var-names] #1771 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #1772 is-core!option.Option./Some #1758
[mk-app] #1773 is-core!option.Option./Some #1705
[mk-app] #1774 core!option.Option./Some/0 #1216 #1217 #1758
[mk-app] #1775 core!option.Option./Some/0 #1216 #1217 #1705
[mk-app] #1776 ext_eq #1273 #1217 #1774 #1775
[mk-app] #1777 and #1756 #1757 #1772 #1773 #1776
[mk-app] #1778 => #1777 #1762
[mk-quant] #1779 internal_core!option.Option./Some_ext_equal_definition 5 #1764 #1778
[attach-var-names] #1779 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #1780 is #1758
[inst-discovered] theory-solving 0x0 datatype# ; #1772
[mk-app] #1781 = #1772 #1780
[instance] 0x0 #1781
[attach-enode] #1781 0
[end-of-instance]
[mk-app] #1781 is #1705
[inst-discovered] theory-solving 0x0 datatype# ; #1773
[mk-app] #1782 = #1773 #1781
[instance] 0x0 #1782
[attach-enode] #1782 0
[end-of-instance]
[mk-app] #1782 and #1756 #1757 #1780 #1781 #1776
[mk-app] #1783 not #1782
[mk-app] #1784 or #1783 #1762
[mk-app] #1785 => #1782 #1762
[inst-discovered] theory-solving 0x0 basic# ; #1785
[mk-app] #1786 = #1785 #1784
[instance] 0x0 #1786
[attach-enode] #1786 0
[end-of-instance]
[mk-quant] #1785 internal_core!option.Option./Some_ext_equal_definition 5 #1764 #1784
[attach-var-names] #1785 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-var] #1786 0
[mk-app] #1787 Poly%core!result.Result. #1786
[mk-app] #1788 %Poly%core!result.Result. #1787
[mk-app] #1789 = #1786 #1788
[mk-app] #1790 pattern #1787
[mk-quant] #1791 internal_core__result__Result_box_axiom_definition 1 #1790 #1789
[attach-var-names] #1791 (|x| ; |core!result.Result.|)
[mk-app] #1792 TYPE%core!result.Result. #1216 #1217 #64 #65
[mk-app] #1793 has_type #33 #1792
[mk-app] #1794 %Poly%core!result.Result. #33
[mk-app] #1795 Poly%core!result.Result. #1794
[mk-app] #1796 = #33 #1795
[mk-app] #1797 => #1793 #1796
[mk-app] #1798 pattern #1793
[mk-quant] #1799 internal_core__result__Result_unbox_axiom_definition 5 #1798 #1797
[attach-var-names] #1799 (|x| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1800 not #1793
[mk-app] #1801 or #1800 #1796
[inst-discovered] theory-solving 0x0 basic# ; #1797
[mk-app] #1802 = #1797 #1801
[instance] 0x0 #1802
[attach-enode] #1802 0
[end-of-instance]
[mk-quant] #1802 internal_core__result__Result_unbox_axiom_definition 5 #1798 #1801
[attach-var-names] #1802 (|x| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1803 has_type #33 #1217
[mk-app] #1804 core!result.Result./Ok #33
[mk-app] #1805 Poly%core!result.Result. #1804
[mk-app] #1806 has_type #1805 #1792
[mk-app] #1807 => #1803 #1806
[mk-app] #1808 pattern #1806
[mk-quant] #1809 internal_core!result.Result./Ok_constructor_definition 5 #1808 #1807
[attach-var-names] #1809 (|_0!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1810 not #1803
[mk-app] #1811 or #1810 #1806
[inst-discovered] theory-solving 0x0 basic# ; #1807
[mk-app] #1812 = #1807 #1811
[instance] 0x0 #1812
[attach-enode] #1812 0
[end-of-instance]
[mk-quant] #1812 internal_core!result.Result./Ok_constructor_definition 5 #1808 #1811
[attach-var-names] #1812 (|_0!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1813 is-core!result.Result./Ok #1786
[mk-app] #1814 core!result.Result./Ok/0 #1216 #1217 #64 #65 #1786
[mk-app] #1815 core!result.Result./Ok/?0 #1786
[mk-app] #1816 = #1814 #1815
[mk-app] #1817 => #1813 #1816
[mk-app] #1818 pattern #1814
[mk-quant] #1819 internal_core!result.Result./Ok/0_accessor_definition 5 #1818 #1817
[attach-var-names] #1819 (|x| ; |core!result.Result.|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1820 is #1786
[inst-discovered] theory-solving 0x0 datatype# ; #1813
[mk-app] #1821 = #1813 #1820
[instance] 0x0 #1821
[attach-enode] #1821 0
[end-of-instance]
[mk-app] #1821 not #1820
[mk-app] #1822 or #1821 #1816
[mk-app] #1823 => #1820 #1816
[inst-discovered] theory-solving 0x0 basic# ; #1823
[mk-app] #1824 = #1823 #1822
[instance] 0x0 #1824
[attach-enode] #1824 0
[end-of-instance]
[mk-quant] #1823 internal_core!result.Result./Ok/0_accessor_definition 5 #1818 #1822
[attach-var-names] #1823 (|x| ; |core!result.Result.|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1824 core!result.Result./Ok/0 #1216 #1217 #64 #65 #1794
[mk-app] #1825 has_type #1824 #1217
[mk-app] #1826 => #1793 #1825
[mk-app] #1827 pattern #1824 #1793
[mk-quant] #1828 internal_core!result.Result./Ok/0_invariant_definition 5 #1827 #1826
[attach-var-names] #1828 (|x| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1829 or #1800 #1825
[inst-discovered] theory-solving 0x0 basic# ; #1826
[mk-app] #1830 = #1826 #1829
[instance] 0x0 #1830
[attach-enode] #1830 0
[end-of-instance]
[mk-quant] #1830 internal_core!result.Result./Ok/0_invariant_definition 5 #1827 #1829
[attach-var-names] #1830 (|x| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1831 core!result.Result./Err #33
[mk-app] #1832 Poly%core!result.Result. #1831
[mk-app] #1833 has_type #1832 #1792
[mk-app] #1834 => #68 #1833
[mk-app] #1835 pattern #1833
[mk-quant] #1836 internal_core!result.Result./Err_constructor_definition 5 #1835 #1834
[attach-var-names] #1836 (|_0!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1837 or #1726 #1833
[inst-discovered] theory-solving 0x0 basic# ; #1834
[mk-app] #1838 = #1834 #1837
[instance] 0x0 #1838
[attach-enode] #1838 0
[end-of-instance]
[mk-quant] #1838 internal_core!result.Result./Err_constructor_definition 5 #1835 #1837
[attach-var-names] #1838 (|_0!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1839 is-core!result.Result./Err #1786
[mk-app] #1840 core!result.Result./Err/0 #1216 #1217 #64 #65 #1786
[mk-app] #1841 core!result.Result./Err/?0 #1786
[mk-app] #1842 = #1840 #1841
[mk-app] #1843 => #1839 #1842
[mk-app] #1844 pattern #1840
[mk-quant] #1845 internal_core!result.Result./Err/0_accessor_definition 5 #1844 #1843
[attach-var-names] #1845 (|x| ; |core!result.Result.|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1846 is #1786
[inst-discovered] theory-solving 0x0 datatype# ; #1839
[mk-app] #1847 = #1839 #1846
[instance] 0x0 #1847
[attach-enode] #1847 0
[end-of-instance]
[mk-app] #1847 not #1846
[mk-app] #1848 or #1847 #1842
[mk-app] #1849 => #1846 #1842
[inst-discovered] theory-solving 0x0 basic# ; #1849
[mk-app] #1850 = #1849 #1848
[instance] 0x0 #1850
[attach-enode] #1850 0
[end-of-instance]
[mk-quant] #1849 internal_core!result.Result./Err/0_accessor_definition 5 #1844 #1848
[attach-var-names] #1849 (|x| ; |core!result.Result.|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1850 core!result.Result./Err/0 #1216 #1217 #64 #65 #1794
[mk-app] #1851 has_type #1850 #65
[mk-app] #1852 => #1793 #1851
[mk-app] #1853 pattern #1850 #1793
[mk-quant] #1854 internal_core!result.Result./Err/0_invariant_definition 5 #1853 #1852
[attach-var-names] #1854 (|x| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1855 or #1800 #1851
[inst-discovered] theory-solving 0x0 basic# ; #1852
[mk-app] #1856 = #1852 #1855
[instance] 0x0 #1856
[attach-enode] #1856 0
[end-of-instance]
[mk-quant] #1856 internal_core!result.Result./Err/0_invariant_definition 5 #1853 #1855
[attach-var-names] #1856 (|x| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1857 height #1814
[mk-app] #1858 height #1787
[mk-app] #1859 height_lt #1857 #1858
[mk-app] #1860 => #1813 #1859
[mk-app] #1861 pattern #1857
[mk-quant] #1862 prelude_datatype_height_core!result.Result./Ok/0 5 #1861 #1860
[attach-var-names] #1862 (|x| ; |core!result.Result.|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #1813
[mk-app] #1863 = #1813 #1820
[instance] 0x0 #1863
[attach-enode] #1863 0
[end-of-instance]
[mk-app] #1863 or #1821 #1859
[mk-app] #1864 => #1820 #1859
[inst-discovered] theory-solving 0x0 basic# ; #1864
[mk-app] #1865 = #1864 #1863
[instance] 0x0 #1865
[attach-enode] #1865 0
[end-of-instance]
[mk-quant] #1864 prelude_datatype_height_core!result.Result./Ok/0 5 #1861 #1863
[attach-var-names] #1864 (|x| ; |core!result.Result.|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #1865 height #1840
[mk-app] #1866 height_lt #1865 #1858
[mk-app] #1867 => #1839 #1866
[mk-app] #1868 pattern #1865
[mk-quant] #1869 prelude_datatype_height_core!result.Result./Err/0 5 #1868 #1867
[attach-var-names] #1869 (|x| ; |core!result.Result.|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #1839
[mk-app] #1870 = #1839 #1846
[instance] 0x0 #1870
[attach-enode] #1870 0
[end-of-instance]
[mk-app] #1870 or #1847 #1866
[mk-app] #1871 => #1846 #1866
[inst-discovered] theory-solving 0x0 basic# ; #1871
[mk-app] #1872 = #1871 #1870
[instance] 0x0 #1872
[attach-enode] #1872 0
[end-of-instance]
[mk-quant] #1871 prelude_datatype_height_core!result.Result./Err/0 5 #1868 #1870
[attach-var-names] #1871 (|x| ; |core!result.Result.|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #1872 0
[mk-app] #1873 Poly%vstd!std_specs.iter.VerusForLoopWrapper. #1872
[mk-app] #1874 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #1873
[mk-app] #1875 = #1872 #1874
[mk-app] #1876 pattern #1873
[mk-quant] #1877 internal_vstd__std_specs__iter__VerusForLoopWrapper_box_axiom_definition 1 #1876 #1875
[attach-var-names] #1877 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #1878 TYPE%vstd!std_specs.iter.VerusForLoopWrapper. #64 #65
[mk-app] #1879 has_type #33 #1878
[mk-app] #1880 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #33
[mk-app] #1881 Poly%vstd!std_specs.iter.VerusForLoopWrapper. #1880
[mk-app] #1882 = #33 #1881
[mk-app] #1883 => #1879 #1882
[mk-app] #1884 pattern #1879
[mk-quant] #1885 internal_vstd__std_specs__iter__VerusForLoopWrapper_unbox_axiom_definition 3 #1884 #1883
[attach-var-names] #1885 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #1886 not #1879
[mk-app] #1887 or #1886 #1882
[inst-discovered] theory-solving 0x0 basic# ; #1883
[mk-app] #1888 = #1883 #1887
[instance] 0x0 #1888
[attach-enode] #1888 0
[end-of-instance]
[mk-quant] #1888 internal_vstd__std_specs__iter__VerusForLoopWrapper_unbox_axiom_definition 3 #1884 #1887
[attach-var-names] #1888 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-var] #1889 3
[mk-app] #1890 has_type #43 #1229
[mk-app] #1891 proj%%core!iter.traits.iterator.Iterator./Item #1248 #1229
[mk-app] #1892 proj%core!iter.traits.iterator.Iterator./Item #1248 #1229
[mk-app] #1893 TYPE%vstd!seq.Seq. #1891 #1892
[mk-app] #1894 has_type #33 #1893
[mk-app] #1895 and #1890 #1252 #1894
[mk-app] #1896 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper #1889 #43 #32 #33
[mk-app] #1897 Poly%vstd!std_specs.iter.VerusForLoopWrapper. #1896
[mk-app] #1898 TYPE%vstd!std_specs.iter.VerusForLoopWrapper. #1248 #1229
[mk-app] #1899 has_type #1897 #1898
[mk-app] #1900 => #1895 #1899
[mk-app] #1901 pattern #1899
[mk-quant] #1902 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper_constructor_definition 6 #1901 #1900
[attach-var-names] #1902 (|_history!| ; |Poly|) (|_iter!| ; |Poly|) (|_snapshot!| ; |Poly|) (|_index!| ; |Int|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #1903 not #1895
[mk-app] #1904 or #1903 #1899
[inst-discovered] theory-solving 0x0 basic# ; #1900
[mk-app] #1905 = #1900 #1904
[instance] 0x0 #1905
[attach-enode] #1905 0
[end-of-instance]
[mk-quant] #1905 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper_constructor_definition 6 #1901 #1904
[attach-var-names] #1905 (|_history!| ; |Poly|) (|_iter!| ; |Poly|) (|_snapshot!| ; |Poly|) (|_index!| ; |Int|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #1906 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/index #1872
[mk-app] #1907 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?index #1872
[mk-app] #1908 = #1906 #1907
[mk-app] #1909 pattern #1906
[mk-quant] #1910 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/index_accessor_definition 1 #1909 #1908
[attach-var-names] #1910 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #1911 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot #1872
[mk-app] #1912 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?snapshot #1872
[mk-app] #1913 = #1911 #1912
[mk-app] #1914 pattern #1911
[mk-quant] #1915 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot_accessor_definition 1 #1914 #1913
[attach-var-names] #1915 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #1916 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot #1880
[mk-app] #1917 has_type #1916 #65
[mk-app] #1918 => #1879 #1917
[mk-app] #1919 pattern #1916 #1879
[mk-quant] #1920 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot_invariant_definition 3 #1919 #1918
[attach-var-names] #1920 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #1921 or #1886 #1917
[inst-discovered] theory-solving 0x0 basic# ; #1918
[mk-app] #1922 = #1918 #1921
[instance] 0x0 #1922
[attach-enode] #1922 0
[end-of-instance]
[mk-quant] #1922 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot_invariant_definition 3 #1919 #1921
[attach-var-names] #1922 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #1923 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #1872
[mk-app] #1924 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?iter #1872
[mk-app] #1925 = #1923 #1924
[mk-app] #1926 pattern #1923
[mk-quant] #1927 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter_accessor_definition 1 #1926 #1925
[attach-var-names] #1927 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #1928 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #1880
[mk-app] #1929 has_type #1928 #65
[mk-app] #1930 => #1879 #1929
[mk-app] #1931 pattern #1928 #1879
[mk-quant] #1932 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter_invariant_definition 3 #1931 #1930
[attach-var-names] #1932 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #1933 or #1886 #1929
[inst-discovered] theory-solving 0x0 basic# ; #1930
[mk-app] #1934 = #1930 #1933
[instance] 0x0 #1934
[attach-enode] #1934 0
[end-of-instance]
[mk-quant] #1934 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter_invariant_definition 3 #1931 #1933
[attach-var-names] #1934 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #1935 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history #1872
[mk-app] #1936 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/?history #1872
[mk-app] #1937 = #1935 #1936
[mk-app] #1938 pattern #1935
[mk-quant] #1939 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history_accessor_definition 1 #1938 #1937
[attach-var-names] #1939 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #1940 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history #1880
[mk-app] #1941 proj%%core!iter.traits.iterator.Iterator./Item #64 #65
[mk-app] #1942 proj%core!iter.traits.iterator.Iterator./Item #64 #65
[mk-app] #1943 TYPE%vstd!seq.Seq. #1941 #1942
[mk-app] #1944 has_type #1940 #1943
[mk-app] #1945 => #1879 #1944
[mk-app] #1946 pattern #1940 #1879
[mk-quant] #1947 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history_invariant_definition 3 #1946 #1945
[attach-var-names] #1947 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #1948 or #1886 #1944
[inst-discovered] theory-solving 0x0 basic# ; #1945
[mk-app] #1949 = #1945 #1948
[instance] 0x0 #1949
[attach-enode] #1949 0
[end-of-instance]
[mk-quant] #1949 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history_invariant_definition 3 #1946 #1948
[attach-var-names] #1949 (|x| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #1950 is-vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper #1872
[mk-app] #1951 height #1911
[mk-app] #1952 height #1873
[mk-app] #1953 height_lt #1951 #1952
[mk-app] #1954 => #1950 #1953
[mk-app] #1955 pattern #1951
[mk-quant] #1956 prelude_datatype_height_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot 1 #1955 #1954
[attach-var-names] #1956 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #1957 is #1872
[inst-discovered] theory-solving 0x0 datatype# ; #1950
[mk-app] #1958 = #1950 #1957
[instance] 0x0 #1958
[attach-enode] #1958 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #1957
[mk-app] #1958 = #1957 #1
[instance] 0x0 #1958
[attach-enode] #1958 0
[end-of-instance]
[mk-app] #1958 => #1 #1953
[inst-discovered] theory-solving 0x0 basic# ; #1958
[mk-app] #1959 = #1958 #1953
[instance] 0x0 #1959
[attach-enode] #1959 0
[end-of-instance]
[mk-quant] #1958 prelude_datatype_height_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot 1 #1955 #1953
[attach-var-names] #1958 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #1957 height #1923
[mk-app] #1959 height_lt #1957 #1952
[mk-app] #1960 => #1950 #1959
[mk-app] #1961 pattern #1957
[mk-quant] #1962 prelude_datatype_height_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter 1 #1961 #1960
[attach-var-names] #1962 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #1963 is #1872
[inst-discovered] theory-solving 0x0 datatype# ; #1950
[mk-app] #1964 = #1950 #1963
[instance] 0x0 #1964
[attach-enode] #1964 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #1963
[mk-app] #1964 = #1963 #1
[instance] 0x0 #1964
[attach-enode] #1964 0
[end-of-instance]
[mk-app] #1964 => #1 #1959
[inst-discovered] theory-solving 0x0 basic# ; #1964
[mk-app] #1965 = #1964 #1959
[instance] 0x0 #1965
[attach-enode] #1965 0
[end-of-instance]
[mk-quant] #1964 prelude_datatype_height_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter 1 #1961 #1959
[attach-var-names] #1964 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #1963 height #1935
[mk-app] #1965 height_lt #1963 #1952
[mk-app] #1966 => #1950 #1965
[mk-app] #1967 pattern #1963
[mk-quant] #1968 prelude_datatype_height_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history 1 #1967 #1966
[attach-var-names] #1968 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-app] #1969 is #1872
[inst-discovered] theory-solving 0x0 datatype# ; #1950
[mk-app] #1970 = #1950 #1969
[instance] 0x0 #1970
[attach-enode] #1970 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #1969
[mk-app] #1970 = #1969 #1
[instance] 0x0 #1970
[attach-enode] #1970 0
[end-of-instance]
[mk-app] #1970 => #1 #1965
[inst-discovered] theory-solving 0x0 basic# ; #1970
[mk-app] #1971 = #1970 #1965
[instance] 0x0 #1971
[attach-enode] #1971 0
[end-of-instance]
[mk-quant] #1970 prelude_datatype_height_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history 1 #1967 #1965
[attach-var-names] #1970 (|x| ; |vstd!std_specs.iter.VerusForLoopWrapper.|)
[mk-var] #1969 0
[mk-app] #1971 Poly%core!ops.range.Range. #1969
[mk-app] #1972 %Poly%core!ops.range.Range. #1971
[mk-app] #1973 = #1969 #1972
[mk-app] #1974 pattern #1971
[mk-quant] #1975 internal_core__ops__range__Range_box_axiom_definition 1 #1974 #1973
[attach-var-names] #1975 (|x| ; |core!ops.range.Range.|)
[mk-app] #1976 TYPE%core!ops.range.Range. #64 #65
[mk-app] #1977 has_type #33 #1976
[mk-app] #1978 %Poly%core!ops.range.Range. #33
[mk-app] #1979 Poly%core!ops.range.Range. #1978
[mk-app] #1980 = #33 #1979
[mk-app] #1981 => #1977 #1980
[mk-app] #1982 pattern #1977
[mk-quant] #1983 internal_core__ops__range__Range_unbox_axiom_definition 3 #1982 #1981
[attach-var-names] #1983 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #1984 not #1977
[mk-app] #1985 or #1984 #1980
[inst-discovered] theory-solving 0x0 basic# ; #1981
[mk-app] #1986 = #1981 #1985
[instance] 0x0 #1986
[attach-enode] #1986 0
[end-of-instance]
[mk-quant] #1986 internal_core__ops__range__Range_unbox_axiom_definition 3 #1982 #1985
[attach-var-names] #1986 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #1987 has_type #32 #263
[mk-app] #1988 has_type #33 #263
[mk-app] #1989 and #1987 #1988
[mk-app] #1990 core!ops.range.Range./Range #32 #33
[mk-app] #1991 Poly%core!ops.range.Range. #1990
[mk-app] #1992 TYPE%core!ops.range.Range. #1249 #263
[mk-app] #1993 has_type #1991 #1992
[mk-app] #1994 => #1989 #1993
[mk-app] #1995 pattern #1993
[mk-quant] #1996 internal_core!ops.range.Range./Range_constructor_definition 4 #1995 #1994
[attach-var-names] #1996 (|_end!| ; |Poly|) (|_start!| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #1997 not #1989
[mk-app] #1998 or #1997 #1993
[inst-discovered] theory-solving 0x0 basic# ; #1994
[mk-app] #1999 = #1994 #1998
[instance] 0x0 #1999
[attach-enode] #1999 0
[end-of-instance]
[mk-quant] #1999 internal_core!ops.range.Range./Range_constructor_definition 4 #1995 #1998
[attach-var-names] #1999 (|_end!| ; |Poly|) (|_start!| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2000 core!ops.range.Range./Range/start #1969
[mk-app] #2001 core!ops.range.Range./Range/?start #1969
[mk-app] #2002 = #2000 #2001
[mk-app] #2003 pattern #2000
[mk-quant] #2004 internal_core!ops.range.Range./Range/start_accessor_definition 1 #2003 #2002
[attach-var-names] #2004 (|x| ; |core!ops.range.Range.|)
[mk-app] #2005 core!ops.range.Range./Range/start #1978
[mk-app] #2006 has_type #2005 #65
[mk-app] #2007 => #1977 #2006
[mk-app] #2008 pattern #2005 #1977
[mk-quant] #2009 internal_core!ops.range.Range./Range/start_invariant_definition 3 #2008 #2007
[attach-var-names] #2009 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2010 or #1984 #2006
[inst-discovered] theory-solving 0x0 basic# ; #2007
[mk-app] #2011 = #2007 #2010
[instance] 0x0 #2011
[attach-enode] #2011 0
[end-of-instance]
[mk-quant] #2011 internal_core!ops.range.Range./Range/start_invariant_definition 3 #2008 #2010
[attach-var-names] #2011 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2012 core!ops.range.Range./Range/end #1969
[mk-app] #2013 core!ops.range.Range./Range/?end #1969
[mk-app] #2014 = #2012 #2013
[mk-app] #2015 pattern #2012
[mk-quant] #2016 internal_core!ops.range.Range./Range/end_accessor_definition 1 #2015 #2014
[attach-var-names] #2016 (|x| ; |core!ops.range.Range.|)
[mk-app] #2017 core!ops.range.Range./Range/end #1978
[mk-app] #2018 has_type #2017 #65
[mk-app] #2019 => #1977 #2018
[mk-app] #2020 pattern #2017 #1977
[mk-quant] #2021 internal_core!ops.range.Range./Range/end_invariant_definition 3 #2020 #2019
[attach-var-names] #2021 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2022 or #1984 #2018
[inst-discovered] theory-solving 0x0 basic# ; #2019
[mk-app] #2023 = #2019 #2022
[instance] 0x0 #2023
[attach-enode] #2023 0
[end-of-instance]
[mk-quant] #2023 internal_core!ops.range.Range./Range/end_invariant_definition 3 #2020 #2022
[attach-var-names] #2023 (|x| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #2024 is-core!ops.range.Range./Range #1969
[mk-app] #2025 height #2000
[mk-app] #2026 height #1971
[mk-app] #2027 height_lt #2025 #2026
[mk-app] #2028 => #2024 #2027
[mk-app] #2029 pattern #2025
[mk-quant] #2030 prelude_datatype_height_core!ops.range.Range./Range/start 1 #2029 #2028
[attach-var-names] #2030 (|x| ; |core!ops.range.Range.|)
[mk-app] #2031 is #1969
[inst-discovered] theory-solving 0x0 datatype# ; #2024
[mk-app] #2032 = #2024 #2031
[instance] 0x0 #2032
[attach-enode] #2032 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2031
[mk-app] #2032 = #2031 #1
[instance] 0x0 #2032
[attach-enode] #2032 0
[end-of-instance]
[mk-app] #2032 => #1 #2027
[inst-discovered] theory-solving 0x0 basic# ; #2032
[mk-app] #2033 = #2032 #2027
[instance] 0x0 #2033
[attach-enode] #2033 0
[end-of-instance]
[mk-quant] #2032 prelude_datatype_height_core!ops.range.Range./Range/start 1 #2029 #2027
[attach-var-names] #2032 (|x| ; |core!ops.range.Range.|)
[mk-app] #2031 height #2012
[mk-app] #2033 height_lt #2031 #2026
[mk-app] #2034 => #2024 #2033
[mk-app] #2035 pattern #2031
[mk-quant] #2036 prelude_datatype_height_core!ops.range.Range./Range/end 1 #2035 #2034
[attach-var-names] #2036 (|x| ; |core!ops.range.Range.|)
[mk-app] #2037 is #1969
[inst-discovered] theory-solving 0x0 datatype# ; #2024
[mk-app] #2038 = #2024 #2037
[instance] 0x0 #2038
[attach-enode] #2038 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2037
[mk-app] #2038 = #2037 #1
[instance] 0x0 #2038
[attach-enode] #2038 0
[end-of-instance]
[mk-app] #2038 => #1 #2033
[inst-discovered] theory-solving 0x0 basic# ; #2038
[mk-app] #2039 = #2038 #2033
[instance] 0x0 #2039
[attach-enode] #2039 0
[end-of-instance]
[mk-quant] #2038 prelude_datatype_height_core!ops.range.Range./Range/end 1 #2035 #2033
[attach-var-names] #2038 (|x| ; |core!ops.range.Range.|)
[mk-var] #2037 0
[mk-app] #2039 Poly%vstd!raw_ptr.PtrData. #2037
[mk-app] #2040 %Poly%vstd!raw_ptr.PtrData. #2039
[mk-app] #2041 = #2037 #2040
[mk-app] #2042 pattern #2039
[mk-quant] #2043 internal_vstd__raw_ptr__PtrData_box_axiom_definition 1 #2042 #2041
[attach-var-names] #2043 (|x| ; |vstd!raw_ptr.PtrData.|)
[mk-app] #2044 TYPE%vstd!raw_ptr.PtrData. #64 #65
[mk-app] #2045 has_type #33 #2044
[mk-app] #2046 %Poly%vstd!raw_ptr.PtrData. #33
[mk-app] #2047 Poly%vstd!raw_ptr.PtrData. #2046
[mk-app] #2048 = #33 #2047
[mk-app] #2049 => #2045 #2048
[mk-app] #2050 pattern #2045
[mk-quant] #2051 internal_vstd__raw_ptr__PtrData_unbox_axiom_definition 3 #2050 #2049
[attach-var-names] #2051 (|x| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2052 not #2045
[mk-app] #2053 or #2052 #2048
[inst-discovered] theory-solving 0x0 basic# ; #2049
[mk-app] #2054 = #2049 #2053
[instance] 0x0 #2054
[attach-enode] #2054 0
[end-of-instance]
[mk-quant] #2054 internal_vstd__raw_ptr__PtrData_unbox_axiom_definition 3 #2050 #2053
[attach-var-names] #2054 (|x| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #2055 2
[mk-var] #2056 1
[mk-app] #2057 uInv #269 #2055
[mk-app] #2058 pointee_metadata% #1216
[mk-app] #2059 has_type #33 #2058
[mk-app] #2060 and #2057 #2059
[mk-app] #2061 vstd!raw_ptr.PtrData./PtrData #2055 #2056 #33
[mk-app] #2062 Poly%vstd!raw_ptr.PtrData. #2061
[mk-app] #2063 TYPE%vstd!raw_ptr.PtrData. #1216 #1217
[mk-app] #2064 has_type #2062 #2063
[mk-app] #2065 => #2060 #2064
[mk-app] #2066 pattern #2064
[mk-quant] #2067 internal_vstd!raw_ptr.PtrData./PtrData_constructor_definition 5 #2066 #2065
[attach-var-names] #2067 (|_metadata!| ; |Poly|) (|_provenance!| ; |vstd!raw_ptr.Provenance.|) (|_addr!| ; |Int|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2068 not #2060
[mk-app] #2069 or #2068 #2064
[inst-discovered] theory-solving 0x0 basic# ; #2065
[mk-app] #2070 = #2065 #2069
[instance] 0x0 #2070
[attach-enode] #2070 0
[end-of-instance]
[mk-quant] #2070 internal_vstd!raw_ptr.PtrData./PtrData_constructor_definition 5 #2066 #2069
[attach-var-names] #2070 (|_metadata!| ; |Poly|) (|_provenance!| ; |vstd!raw_ptr.Provenance.|) (|_addr!| ; |Int|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2071 vstd!raw_ptr.PtrData./PtrData/addr #2037
[mk-app] #2072 vstd!raw_ptr.PtrData./PtrData/?addr #2037
[mk-app] #2073 = #2071 #2072
[mk-app] #2074 pattern #2071
[mk-quant] #2075 internal_vstd!raw_ptr.PtrData./PtrData/addr_accessor_definition 1 #2074 #2073
[attach-var-names] #2075 (|x| ; |vstd!raw_ptr.PtrData.|)
[mk-app] #2076 vstd!raw_ptr.PtrData./PtrData/addr #2046
[mk-app] #2077 uInv #269 #2076
[mk-app] #2078 => #2045 #2077
[mk-app] #2079 pattern #2076 #2045
[mk-quant] #2080 internal_vstd!raw_ptr.PtrData./PtrData/addr_invariant_definition 3 #2079 #2078
[attach-var-names] #2080 (|x| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2081 or #2052 #2077
[inst-discovered] theory-solving 0x0 basic# ; #2078
[mk-app] #2082 = #2078 #2081
[instance] 0x0 #2082
[attach-enode] #2082 0
[end-of-instance]
[mk-quant] #2082 internal_vstd!raw_ptr.PtrData./PtrData/addr_invariant_definition 3 #2079 #2081
[attach-var-names] #2082 (|x| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2083 vstd!raw_ptr.PtrData./PtrData/provenance #2037
[mk-app] #2084 vstd!raw_ptr.PtrData./PtrData/?provenance #2037
[mk-app] #2085 = #2083 #2084
[mk-app] #2086 pattern #2083
[mk-quant] #2087 internal_vstd!raw_ptr.PtrData./PtrData/provenance_accessor_definition 1 #2086 #2085
[attach-var-names] #2087 (|x| ; |vstd!raw_ptr.PtrData.|)
[mk-app] #2088 vstd!raw_ptr.PtrData./PtrData/metadata #2037
[mk-app] #2089 vstd!raw_ptr.PtrData./PtrData/?metadata #2037
[mk-app] #2090 = #2088 #2089
[mk-app] #2091 pattern #2088
[mk-quant] #2092 internal_vstd!raw_ptr.PtrData./PtrData/metadata_accessor_definition 1 #2091 #2090
[attach-var-names] #2092 (|x| ; |vstd!raw_ptr.PtrData.|)
[mk-app] #2093 vstd!raw_ptr.PtrData./PtrData/metadata #2046
[mk-app] #2094 pointee_metadata% #64
[mk-app] #2095 has_type #2093 #2094
[mk-app] #2096 => #2045 #2095
[mk-app] #2097 pattern #2093 #2045
[mk-quant] #2098 internal_vstd!raw_ptr.PtrData./PtrData/metadata_invariant_definition 3 #2097 #2096
[attach-var-names] #2098 (|x| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2099 or #2052 #2095
[inst-discovered] theory-solving 0x0 basic# ; #2096
[mk-app] #2100 = #2096 #2099
[instance] 0x0 #2100
[attach-enode] #2100 0
[end-of-instance]
[mk-quant] #2100 internal_vstd!raw_ptr.PtrData./PtrData/metadata_invariant_definition 3 #2097 #2099
[attach-var-names] #2100 (|x| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #2101 0
[mk-app] #2102 Poly%u_tokenizer!lex.Class. #2101
[mk-app] #2103 %Poly%u_tokenizer!lex.Class. #2102
[mk-app] #2104 = #2101 #2103
[mk-app] #2105 pattern #2102
[mk-quant] #2106 internal_u_tokenizer__lex__Class_box_axiom_definition 1 #2105 #2104
[attach-var-names] #2106 (|x| ; |u_tokenizer!lex.Class.|)
[mk-app] #2107 TYPE%u_tokenizer!lex.Class.
[mk-app] #2108 has_type #33 #2107
[mk-app] #2109 %Poly%u_tokenizer!lex.Class. #33
[mk-app] #2110 Poly%u_tokenizer!lex.Class. #2109
[mk-app] #2111 = #33 #2110
[mk-app] #2112 => #2108 #2111
[mk-app] #2113 pattern #2108
[mk-quant] #2114 internal_u_tokenizer__lex__Class_unbox_axiom_definition 1 #2113 #2112
[attach-var-names] #2114 (|x| ; |Poly|)
[mk-app] #2115 not #2108
[mk-app] #2116 or #2115 #2111
[inst-discovered] theory-solving 0x0 basic# ; #2112
[mk-app] #2117 = #2112 #2116
[instance] 0x0 #2117
[attach-enode] #2117 0
[end-of-instance]
[mk-quant] #2117 internal_u_tokenizer__lex__Class_unbox_axiom_definition 1 #2113 #2116
[attach-var-names] #2117 (|x| ; |Poly|)
[mk-app] #2118 has_type #2102 #2107
[mk-app] #2119 pattern #2118
[mk-quant] #2120 internal_u_tokenizer__lex__Class_has_type_always_definition 1 #2119 #2118
[attach-var-names] #2120 (|x| ; |u_tokenizer!lex.Class.|)
[mk-var] #2121 0
[mk-app] #2122 Poly%u_tokenizer!lex.Comment. #2121
[mk-app] #2123 %Poly%u_tokenizer!lex.Comment. #2122
[mk-app] #2124 = #2121 #2123
[mk-app] #2125 pattern #2122
[mk-quant] #2126 internal_u_tokenizer__lex__Comment_box_axiom_definition 1 #2125 #2124
[attach-var-names] #2126 (|x| ; |u_tokenizer!lex.Comment.|)
[mk-app] #2127 TYPE%u_tokenizer!lex.Comment.
[mk-app] #2128 has_type #33 #2127
[mk-app] #2129 %Poly%u_tokenizer!lex.Comment. #33
[mk-app] #2130 Poly%u_tokenizer!lex.Comment. #2129
[mk-app] #2131 = #33 #2130
[mk-app] #2132 => #2128 #2131
[mk-app] #2133 pattern #2128
[mk-quant] #2134 internal_u_tokenizer__lex__Comment_unbox_axiom_definition 1 #2133 #2132
[attach-var-names] #2134 (|x| ; |Poly|)
[mk-app] #2135 not #2128
[mk-app] #2136 or #2135 #2131
[inst-discovered] theory-solving 0x0 basic# ; #2132
[mk-app] #2137 = #2132 #2136
[instance] 0x0 #2137
[attach-enode] #2137 0
[end-of-instance]
[mk-quant] #2137 internal_u_tokenizer__lex__Comment_unbox_axiom_definition 1 #2133 #2136
[attach-var-names] #2137 (|x| ; |Poly|)
[mk-app] #2138 u_tokenizer!lex.Comment./Comment/lines #2121
[mk-app] #2139 u_tokenizer!lex.Comment./Comment/?lines #2121
[mk-app] #2140 = #2138 #2139
[mk-app] #2141 pattern #2138
[mk-quant] #2142 internal_u_tokenizer!lex.Comment./Comment/lines_accessor_definition 1 #2141 #2140
[attach-var-names] #2142 (|x| ; |u_tokenizer!lex.Comment.|)
[mk-app] #2143 u_tokenizer!lex.Comment./Comment/end #2121
[mk-app] #2144 u_tokenizer!lex.Comment./Comment/?end #2121
[mk-app] #2145 = #2143 #2144
[mk-app] #2146 pattern #2143
[mk-quant] #2147 internal_u_tokenizer!lex.Comment./Comment/end_accessor_definition 1 #2146 #2145
[attach-var-names] #2147 (|x| ; |u_tokenizer!lex.Comment.|)
[mk-app] #2148 u_tokenizer!lex.Comment./Comment/next #2121
[mk-app] #2149 u_tokenizer!lex.Comment./Comment/?next #2121
[mk-app] #2150 = #2148 #2149
[mk-app] #2151 pattern #2148
[mk-quant] #2152 internal_u_tokenizer!lex.Comment./Comment/next_accessor_definition 1 #2151 #2150
[attach-var-names] #2152 (|x| ; |u_tokenizer!lex.Comment.|)
[mk-app] #2153 has_type #2122 #2127
[mk-app] #2154 pattern #2153
[mk-quant] #2155 internal_u_tokenizer__lex__Comment_has_type_always_definition 1 #2154 #2153
[attach-var-names] #2155 (|x| ; |u_tokenizer!lex.Comment.|)
[mk-var] #2156 0
[mk-app] #2157 Poly%u_tokenizer!lex.Kind. #2156
[mk-app] #2158 %Poly%u_tokenizer!lex.Kind. #2157
[mk-app] #2159 = #2156 #2158
[mk-app] #2160 pattern #2157
[mk-quant] #2161 internal_u_tokenizer__lex__Kind_box_axiom_definition 1 #2160 #2159
[attach-var-names] #2161 (|x| ; |u_tokenizer!lex.Kind.|)
[mk-app] #2162 TYPE%u_tokenizer!lex.Kind.
[mk-app] #2163 has_type #33 #2162
[mk-app] #2164 %Poly%u_tokenizer!lex.Kind. #33
[mk-app] #2165 Poly%u_tokenizer!lex.Kind. #2164
[mk-app] #2166 = #33 #2165
[mk-app] #2167 => #2163 #2166
[mk-app] #2168 pattern #2163
[mk-quant] #2169 internal_u_tokenizer__lex__Kind_unbox_axiom_definition 1 #2168 #2167
[attach-var-names] #2169 (|x| ; |Poly|)
[mk-app] #2170 not #2163
[mk-app] #2171 or #2170 #2166
[inst-discovered] theory-solving 0x0 basic# ; #2167
[mk-app] #2172 = #2167 #2171
[instance] 0x0 #2172
[attach-enode] #2172 0
[end-of-instance]
[mk-quant] #2172 internal_u_tokenizer__lex__Kind_unbox_axiom_definition 1 #2168 #2171
[attach-var-names] #2172 (|x| ; |Poly|)
[mk-app] #2173 u_tokenizer!lex.Kind./Symbol #122
[mk-app] #2174 Poly%u_tokenizer!lex.Kind. #2173
[mk-app] #2175 has_type #2174 #2162
[mk-app] #2176 => #450 #2175
[mk-app] #2177 pattern #2175
[mk-quant] #2178 internal_u_tokenizer!lex.Kind./Symbol_constructor_definition 1 #2177 #2176
[attach-var-names] #2178 (|_0!| ; |Int|)
[mk-app] #2179 or #507 #2175
[inst-discovered] theory-solving 0x0 basic# ; #2176
[mk-app] #2180 = #2176 #2179
[instance] 0x0 #2180
[attach-enode] #2180 0
[end-of-instance]
[mk-quant] #2180 internal_u_tokenizer!lex.Kind./Symbol_constructor_definition 1 #2177 #2179
[attach-var-names] #2180 (|_0!| ; |Int|)
[mk-app] #2181 u_tokenizer!lex.Kind./Symbol/0 #2156
[mk-app] #2182 u_tokenizer!lex.Kind./Symbol/?0 #2156
[mk-app] #2183 = #2181 #2182
[mk-app] #2184 pattern #2181
[mk-quant] #2185 internal_u_tokenizer!lex.Kind./Symbol/0_accessor_definition 1 #2184 #2183
[attach-var-names] #2185 (|x| ; |u_tokenizer!lex.Kind.|)
[mk-app] #2186 u_tokenizer!lex.Kind./Symbol/0 #2164
[mk-app] #2187 charInv #2186
[mk-app] #2188 => #2163 #2187
[mk-app] #2189 pattern #2186 #2163
[mk-quant] #2190 internal_u_tokenizer!lex.Kind./Symbol/0_invariant_definition 1 #2189 #2188
[attach-var-names] #2190 (|x| ; |Poly|)
[mk-app] #2191 or #2170 #2187
[inst-discovered] theory-solving 0x0 basic# ; #2188
[mk-app] #2192 = #2188 #2191
[instance] 0x0 #2192
[attach-enode] #2192 0
[end-of-instance]
[mk-quant] #2192 internal_u_tokenizer!lex.Kind./Symbol/0_invariant_definition 1 #2189 #2191
[attach-var-names] #2192 (|x| ; |Poly|)
[mk-app] #2193 u_tokenizer!lex.Kind./Word #1457
[mk-app] #2194 Poly%u_tokenizer!lex.Kind. #2193
[mk-app] #2195 has_type #2194 #2162
[mk-app] #2196 pattern #2195
[mk-quant] #2197 internal_u_tokenizer!lex.Kind./Word_constructor_definition 1 #2196 #2195
[attach-var-names] #2197 (|_0!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #2198 u_tokenizer!lex.Kind./Word/0 #2156
[mk-app] #2199 u_tokenizer!lex.Kind./Word/?0 #2156
[mk-app] #2200 = #2198 #2199
[mk-app] #2201 pattern #2198
[mk-quant] #2202 internal_u_tokenizer!lex.Kind./Word/0_accessor_definition 1 #2201 #2200
[attach-var-names] #2202 (|x| ; |u_tokenizer!lex.Kind.|)
[mk-app] #2203 u_tokenizer!lex.Kind./Name #1457
[mk-app] #2204 Poly%u_tokenizer!lex.Kind. #2203
[mk-app] #2205 has_type #2204 #2162
[mk-app] #2206 pattern #2205
[mk-quant] #2207 internal_u_tokenizer!lex.Kind./Name_constructor_definition 1 #2206 #2205
[attach-var-names] #2207 (|_0!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #2208 u_tokenizer!lex.Kind./Name/0 #2156
[mk-app] #2209 u_tokenizer!lex.Kind./Name/?0 #2156
[mk-app] #2210 = #2208 #2209
[mk-app] #2211 pattern #2208
[mk-quant] #2212 internal_u_tokenizer!lex.Kind./Name/0_accessor_definition 1 #2211 #2210
[attach-var-names] #2212 (|x| ; |u_tokenizer!lex.Kind.|)
[mk-app] #2213 u_tokenizer!lex.Kind./Int #122
[mk-app] #2214 Poly%u_tokenizer!lex.Kind. #2213
[mk-app] #2215 has_type #2214 #2162
[mk-app] #2216 pattern #2215
[mk-quant] #2217 internal_u_tokenizer!lex.Kind./Int_constructor_definition 1 #2216 #2215
[attach-var-names] #2217 (|_0!| ; |Int|)
[mk-app] #2218 u_tokenizer!lex.Kind./Int/0 #2156
[mk-app] #2219 u_tokenizer!lex.Kind./Int/?0 #2156
[mk-app] #2220 = #2218 #2219
[mk-app] #2221 pattern #2218
[mk-quant] #2222 internal_u_tokenizer!lex.Kind./Int/0_accessor_definition 1 #2221 #2220
[attach-var-names] #2222 (|x| ; |u_tokenizer!lex.Kind.|)
[mk-app] #2223 u_tokenizer!lex.Kind./Path #1457
[mk-app] #2224 Poly%u_tokenizer!lex.Kind. #2223
[mk-app] #2225 has_type #2224 #2162
[mk-app] #2226 pattern #2225
[mk-quant] #2227 internal_u_tokenizer!lex.Kind./Path_constructor_definition 1 #2226 #2225
[attach-var-names] #2227 (|_0!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #2228 u_tokenizer!lex.Kind./Path/0 #2156
[mk-app] #2229 u_tokenizer!lex.Kind./Path/?0 #2156
[mk-app] #2230 = #2228 #2229
[mk-app] #2231 pattern #2228
[mk-quant] #2232 internal_u_tokenizer!lex.Kind./Path/0_accessor_definition 1 #2231 #2230
[attach-var-names] #2232 (|x| ; |u_tokenizer!lex.Kind.|)
[mk-app] #2233 u_tokenizer!lex.Kind./Comment #1497
[mk-app] #2234 Poly%u_tokenizer!lex.Kind. #2233
[mk-app] #2235 has_type #2234 #2162
[mk-app] #2236 pattern #2235
[mk-quant] #2237 internal_u_tokenizer!lex.Kind./Comment_constructor_definition 1 #2236 #2235
[attach-var-names] #2237 (|_0!| ; |vstd!seq.Seq<vstd!seq.Seq<char.>.>.|)
[mk-app] #2238 u_tokenizer!lex.Kind./Comment/0 #2156
[mk-app] #2239 u_tokenizer!lex.Kind./Comment/?0 #2156
[mk-app] #2240 = #2238 #2239
[mk-app] #2241 pattern #2238
[mk-quant] #2242 internal_u_tokenizer!lex.Kind./Comment/0_accessor_definition 1 #2241 #2240
[attach-var-names] #2242 (|x| ; |u_tokenizer!lex.Kind.|)
[mk-var] #2243 0
[mk-app] #2244 Poly%u_tokenizer!lex.Tok. #2243
[mk-app] #2245 %Poly%u_tokenizer!lex.Tok. #2244
[mk-app] #2246 = #2243 #2245
[mk-app] #2247 pattern #2244
[mk-quant] #2248 internal_u_tokenizer__lex__Tok_box_axiom_definition 1 #2247 #2246
[attach-var-names] #2248 (|x| ; |u_tokenizer!lex.Tok.|)
[mk-app] #2249 has_type #33 #1543
[mk-app] #2250 %Poly%u_tokenizer!lex.Tok. #33
[mk-app] #2251 Poly%u_tokenizer!lex.Tok. #2250
[mk-app] #2252 = #33 #2251
[mk-app] #2253 => #2249 #2252
[mk-app] #2254 pattern #2249
[mk-quant] #2255 internal_u_tokenizer__lex__Tok_unbox_axiom_definition 1 #2254 #2253
[attach-var-names] #2255 (|x| ; |Poly|)
[mk-app] #2256 not #2249
[mk-app] #2257 or #2256 #2252
[inst-discovered] theory-solving 0x0 basic# ; #2253
[mk-app] #2258 = #2253 #2257
[instance] 0x0 #2258
[attach-enode] #2258 0
[end-of-instance]
[mk-quant] #2258 internal_u_tokenizer__lex__Tok_unbox_axiom_definition 1 #2254 #2257
[attach-var-names] #2258 (|x| ; |Poly|)
[mk-app] #2259 has_type #2157 #2162
[mk-app] #2260 u_tokenizer!lex.Tok./Tok #2055 #219 #2156
[mk-app] #2261 Poly%u_tokenizer!lex.Tok. #2260
[mk-app] #2262 has_type #2261 #1543
[mk-app] #2263 => #2259 #2262
[mk-app] #2264 pattern #2262
[mk-quant] #2265 internal_u_tokenizer!lex.Tok./Tok_constructor_definition 3 #2264 #2263
[attach-var-names] #2265 (|_kind!| ; |u_tokenizer!lex.Kind.|) (|_e!| ; |Int|) (|_s!| ; |Int|)
[mk-app] #2266 not #2259
[mk-app] #2267 or #2266 #2262
[inst-discovered] theory-solving 0x0 basic# ; #2263
[mk-app] #2268 = #2263 #2267
[instance] 0x0 #2268
[attach-enode] #2268 0
[end-of-instance]
[mk-quant] #2268 internal_u_tokenizer!lex.Tok./Tok_constructor_definition 3 #2264 #2267
[attach-var-names] #2268 (|_kind!| ; |u_tokenizer!lex.Kind.|) (|_e!| ; |Int|) (|_s!| ; |Int|)
[mk-app] #2269 u_tokenizer!lex.Tok./Tok/s #2243
[mk-app] #2270 u_tokenizer!lex.Tok./Tok/?s #2243
[mk-app] #2271 = #2269 #2270
[mk-app] #2272 pattern #2269
[mk-quant] #2273 internal_u_tokenizer!lex.Tok./Tok/s_accessor_definition 1 #2272 #2271
[attach-var-names] #2273 (|x| ; |u_tokenizer!lex.Tok.|)
[mk-app] #2274 u_tokenizer!lex.Tok./Tok/e #2243
[mk-app] #2275 u_tokenizer!lex.Tok./Tok/?e #2243
[mk-app] #2276 = #2274 #2275
[mk-app] #2277 pattern #2274
[mk-quant] #2278 internal_u_tokenizer!lex.Tok./Tok/e_accessor_definition 1 #2277 #2276
[attach-var-names] #2278 (|x| ; |u_tokenizer!lex.Tok.|)
[mk-app] #2279 u_tokenizer!lex.Tok./Tok/kind #2243
[mk-app] #2280 u_tokenizer!lex.Tok./Tok/?kind #2243
[mk-app] #2281 = #2279 #2280
[mk-app] #2282 pattern #2279
[mk-quant] #2283 internal_u_tokenizer!lex.Tok./Tok/kind_accessor_definition 1 #2282 #2281
[attach-var-names] #2283 (|x| ; |u_tokenizer!lex.Tok.|)
[mk-app] #2284 u_tokenizer!lex.Tok./Tok/kind #2250
[mk-app] #2285 Poly%u_tokenizer!lex.Kind. #2284
[mk-app] #2286 has_type #2285 #2162
[mk-app] #2287 => #2249 #2286
[mk-app] #2288 pattern #2284 #2249
[mk-quant] #2289 internal_u_tokenizer!lex.Tok./Tok/kind_invariant_definition 1 #2288 #2287
[attach-var-names] #2289 (|x| ; |Poly|)
[mk-app] #2290 or #2256 #2286
[inst-discovered] theory-solving 0x0 basic# ; #2287
[mk-app] #2291 = #2287 #2290
[instance] 0x0 #2291
[attach-enode] #2291 0
[end-of-instance]
[mk-quant] #2291 internal_u_tokenizer!lex.Tok./Tok/kind_invariant_definition 1 #2288 #2290
[attach-var-names] #2291 (|x| ; |Poly|)
[mk-var] #2292 0
[mk-app] #2293 Poly%u_tokenizer!lex.Step. #2292
[mk-app] #2294 %Poly%u_tokenizer!lex.Step. #2293
[mk-app] #2295 = #2292 #2294
[mk-app] #2296 pattern #2293
[mk-quant] #2297 internal_u_tokenizer__lex__Step_box_axiom_definition 1 #2296 #2295
[attach-var-names] #2297 (|x| ; |u_tokenizer!lex.Step.|)
[mk-app] #2298 TYPE%u_tokenizer!lex.Step.
[mk-app] #2299 has_type #33 #2298
[mk-app] #2300 %Poly%u_tokenizer!lex.Step. #33
[mk-app] #2301 Poly%u_tokenizer!lex.Step. #2300
[mk-app] #2302 = #33 #2301
[mk-app] #2303 => #2299 #2302
[mk-app] #2304 pattern #2299
[mk-quant] #2305 internal_u_tokenizer__lex__Step_unbox_axiom_definition 1 #2304 #2303
[attach-var-names] #2305 (|x| ; |Poly|)
[mk-app] #2306 not #2299
[mk-app] #2307 or #2306 #2302
[inst-discovered] theory-solving 0x0 basic# ; #2303
[mk-app] #2308 = #2303 #2307
[instance] 0x0 #2308
[attach-enode] #2308 0
[end-of-instance]
[mk-quant] #2308 internal_u_tokenizer__lex__Step_unbox_axiom_definition 1 #2304 #2307
[attach-var-names] #2308 (|x| ; |Poly|)
[mk-var] #2309 2
[mk-var] #2310 1
[mk-app] #2311 Poly%core!option.Option. #2309
[mk-app] #2312 TYPE%core!option.Option. #120 #1543
[mk-app] #2313 has_type #2311 #2312
[mk-app] #2314 u_tokenizer!lex.Step./Step #2309 #2310 #122
[mk-app] #2315 Poly%u_tokenizer!lex.Step. #2314
[mk-app] #2316 has_type #2315 #2298
[mk-app] #2317 => #2313 #2316
[mk-app] #2318 pattern #2316
[mk-quant] #2319 internal_u_tokenizer!lex.Step./Step_constructor_definition 3 #2318 #2317
[attach-var-names] #2319 (|_next!| ; |Int|) (|_ok!| ; |Bool|) (|_tok!| ; |core!option.Option.|)
[mk-app] #2320 not #2313
[mk-app] #2321 or #2320 #2316
[inst-discovered] theory-solving 0x0 basic# ; #2317
[mk-app] #2322 = #2317 #2321
[instance] 0x0 #2322
[attach-enode] #2322 0
[end-of-instance]
[mk-quant] #2322 internal_u_tokenizer!lex.Step./Step_constructor_definition 3 #2318 #2321
[attach-var-names] #2322 (|_next!| ; |Int|) (|_ok!| ; |Bool|) (|_tok!| ; |core!option.Option.|)
[mk-app] #2323 u_tokenizer!lex.Step./Step/tok #2292
[mk-app] #2324 u_tokenizer!lex.Step./Step/?tok #2292
[mk-app] #2325 = #2323 #2324
[mk-app] #2326 pattern #2323
[mk-quant] #2327 internal_u_tokenizer!lex.Step./Step/tok_accessor_definition 1 #2326 #2325
[attach-var-names] #2327 (|x| ; |u_tokenizer!lex.Step.|)
[mk-app] #2328 u_tokenizer!lex.Step./Step/tok #2300
[mk-app] #2329 Poly%core!option.Option. #2328
[mk-app] #2330 has_type #2329 #2312
[mk-app] #2331 => #2299 #2330
[mk-app] #2332 pattern #2328 #2299
[mk-quant] #2333 internal_u_tokenizer!lex.Step./Step/tok_invariant_definition 1 #2332 #2331
[attach-var-names] #2333 (|x| ; |Poly|)
[mk-app] #2334 or #2306 #2330
[inst-discovered] theory-solving 0x0 basic# ; #2331
[mk-app] #2335 = #2331 #2334
[instance] 0x0 #2335
[attach-enode] #2335 0
[end-of-instance]
[mk-quant] #2335 internal_u_tokenizer!lex.Step./Step/tok_invariant_definition 1 #2332 #2334
[attach-var-names] #2335 (|x| ; |Poly|)
[mk-app] #2336 u_tokenizer!lex.Step./Step/ok #2292
[mk-app] #2337 u_tokenizer!lex.Step./Step/?ok #2292
[mk-app] #2338 = #2336 #2337
[mk-app] #2339 pattern #2336
[mk-quant] #2340 internal_u_tokenizer!lex.Step./Step/ok_accessor_definition 1 #2339 #2338
[attach-var-names] #2340 (|x| ; |u_tokenizer!lex.Step.|)
[mk-app] #2341 u_tokenizer!lex.Step./Step/next #2292
[mk-app] #2342 u_tokenizer!lex.Step./Step/?next #2292
[mk-app] #2343 = #2341 #2342
[mk-app] #2344 pattern #2341
[mk-quant] #2345 internal_u_tokenizer!lex.Step./Step/next_accessor_definition 1 #2344 #2343
[attach-var-names] #2345 (|x| ; |u_tokenizer!lex.Step.|)
[mk-var] #2346 0
[mk-app] #2347 Poly%u_tokenizer!lex.Lexed. #2346
[mk-app] #2348 %Poly%u_tokenizer!lex.Lexed. #2347
[mk-app] #2349 = #2346 #2348
[mk-app] #2350 pattern #2347
[mk-quant] #2351 internal_u_tokenizer__lex__Lexed_box_axiom_definition 1 #2350 #2349
[attach-var-names] #2351 (|x| ; |u_tokenizer!lex.Lexed.|)
[mk-app] #2352 TYPE%u_tokenizer!lex.Lexed.
[mk-app] #2353 has_type #33 #2352
[mk-app] #2354 %Poly%u_tokenizer!lex.Lexed. #33
[mk-app] #2355 Poly%u_tokenizer!lex.Lexed. #2354
[mk-app] #2356 = #33 #2355
[mk-app] #2357 => #2353 #2356
[mk-app] #2358 pattern #2353
[mk-quant] #2359 internal_u_tokenizer__lex__Lexed_unbox_axiom_definition 1 #2358 #2357
[attach-var-names] #2359 (|x| ; |Poly|)
[mk-app] #2360 not #2353
[mk-app] #2361 or #2360 #2356
[inst-discovered] theory-solving 0x0 basic# ; #2357
[mk-app] #2362 = #2357 #2361
[instance] 0x0 #2362
[attach-enode] #2362 0
[end-of-instance]
[mk-quant] #2362 internal_u_tokenizer__lex__Lexed_unbox_axiom_definition 1 #2358 #2361
[attach-var-names] #2362 (|x| ; |Poly|)
[mk-app] #2363 u_tokenizer!lex.Lexed./Lexed/toks #2346
[mk-app] #2364 u_tokenizer!lex.Lexed./Lexed/?toks #2346
[mk-app] #2365 = #2363 #2364
[mk-app] #2366 pattern #2363
[mk-quant] #2367 internal_u_tokenizer!lex.Lexed./Lexed/toks_accessor_definition 1 #2366 #2365
[attach-var-names] #2367 (|x| ; |u_tokenizer!lex.Lexed.|)
[mk-app] #2368 u_tokenizer!lex.Lexed./Lexed/ok #2346
[mk-app] #2369 u_tokenizer!lex.Lexed./Lexed/?ok #2346
[mk-app] #2370 = #2368 #2369
[mk-app] #2371 pattern #2368
[mk-quant] #2372 internal_u_tokenizer!lex.Lexed./Lexed/ok_accessor_definition 1 #2371 #2370
[attach-var-names] #2372 (|x| ; |u_tokenizer!lex.Lexed.|)
[mk-app] #2373 has_type #2347 #2352
[mk-app] #2374 pattern #2373
[mk-quant] #2375 internal_u_tokenizer__lex__Lexed_has_type_always_definition 1 #2374 #2373
[attach-var-names] #2375 (|x| ; |u_tokenizer!lex.Lexed.|)
[mk-var] #2376 0
[mk-app] #2377 Poly%u_tokenizer!lex.NotANumber. #2376
[mk-app] #2378 %Poly%u_tokenizer!lex.NotANumber. #2377
[mk-app] #2379 = #2376 #2378
[mk-app] #2380 pattern #2377
[mk-quant] #2381 internal_u_tokenizer__lex__NotANumber_box_axiom_definition 1 #2380 #2379
[attach-var-names] #2381 (|x| ; |u_tokenizer!lex.NotANumber.|)
[mk-app] #2382 TYPE%u_tokenizer!lex.NotANumber.
[mk-app] #2383 has_type #33 #2382
[mk-app] #2384 %Poly%u_tokenizer!lex.NotANumber. #33
[mk-app] #2385 Poly%u_tokenizer!lex.NotANumber. #2384
[mk-app] #2386 = #33 #2385
[mk-app] #2387 => #2383 #2386
[mk-app] #2388 pattern #2383
[mk-quant] #2389 internal_u_tokenizer__lex__NotANumber_unbox_axiom_definition 1 #2388 #2387
[attach-var-names] #2389 (|x| ; |Poly|)
[mk-app] #2390 not #2383
[mk-app] #2391 or #2390 #2386
[inst-discovered] theory-solving 0x0 basic# ; #2387
[mk-app] #2392 = #2387 #2391
[instance] 0x0 #2392
[attach-enode] #2392 0
[end-of-instance]
[mk-quant] #2392 internal_u_tokenizer__lex__NotANumber_unbox_axiom_definition 1 #2388 #2391
[attach-var-names] #2392 (|x| ; |Poly|)
[mk-app] #2393 uInv #272 #122
[mk-app] #2394 u_tokenizer!lex.NotANumber./NotANumber #122
[mk-app] #2395 Poly%u_tokenizer!lex.NotANumber. #2394
[mk-app] #2396 has_type #2395 #2382
[mk-app] #2397 => #2393 #2396
[mk-app] #2398 pattern #2396
[mk-quant] #2399 internal_u_tokenizer!lex.NotANumber./NotANumber_constructor_definition 1 #2398 #2397
[attach-var-names] #2399 (|_p!| ; |Int|)
[mk-app] #2400 not #2393
[mk-app] #2401 or #2400 #2396
[inst-discovered] theory-solving 0x0 basic# ; #2397
[mk-app] #2402 = #2397 #2401
[instance] 0x0 #2402
[attach-enode] #2402 0
[end-of-instance]
[mk-quant] #2402 internal_u_tokenizer!lex.NotANumber./NotANumber_constructor_definition 1 #2398 #2401
[attach-var-names] #2402 (|_p!| ; |Int|)
[mk-app] #2403 u_tokenizer!lex.NotANumber./NotANumber/p #2376
[mk-app] #2404 u_tokenizer!lex.NotANumber./NotANumber/?p #2376
[mk-app] #2405 = #2403 #2404
[mk-app] #2406 pattern #2403
[mk-quant] #2407 internal_u_tokenizer!lex.NotANumber./NotANumber/p_accessor_definition 1 #2406 #2405
[attach-var-names] #2407 (|x| ; |u_tokenizer!lex.NotANumber.|)
[mk-app] #2408 u_tokenizer!lex.NotANumber./NotANumber/p #2384
[mk-app] #2409 uInv #272 #2408
[mk-app] #2410 => #2383 #2409
[mk-app] #2411 pattern #2408 #2383
[mk-quant] #2412 internal_u_tokenizer!lex.NotANumber./NotANumber/p_invariant_definition 1 #2411 #2410
[attach-var-names] #2412 (|x| ; |Poly|)
[mk-app] #2413 or #2390 #2409
[inst-discovered] theory-solving 0x0 basic# ; #2410
[mk-app] #2414 = #2410 #2413
[instance] 0x0 #2414
[attach-enode] #2414 0
[end-of-instance]
[mk-quant] #2414 internal_u_tokenizer!lex.NotANumber./NotANumber/p_invariant_definition 1 #2411 #2413
[attach-var-names] #2414 (|x| ; |Poly|)
[mk-var] #2415 0
[mk-app] #2416 Poly%u_tokenizer!error.SourceRange. #2415
[mk-app] #2417 %Poly%u_tokenizer!error.SourceRange. #2416
[mk-app] #2418 = #2415 #2417
[mk-app] #2419 pattern #2416
[mk-quant] #2420 internal_u_tokenizer__error__SourceRange_box_axiom_definition 1 #2419 #2418
[attach-var-names] #2420 (|x| ; |u_tokenizer!error.SourceRange.|)
[mk-app] #2421 TYPE%u_tokenizer!error.SourceRange.
[mk-app] #2422 has_type #33 #2421
[mk-app] #2423 %Poly%u_tokenizer!error.SourceRange. #33
[mk-app] #2424 Poly%u_tokenizer!error.SourceRange. #2423
[mk-app] #2425 = #33 #2424
[mk-app] #2426 => #2422 #2425
[mk-app] #2427 pattern #2422
[mk-quant] #2428 internal_u_tokenizer__error__SourceRange_unbox_axiom_definition 1 #2427 #2426
[attach-var-names] #2428 (|x| ; |Poly|)
[mk-app] #2429 not #2422
[mk-app] #2430 or #2429 #2425
[inst-discovered] theory-solving 0x0 basic# ; #2426
[mk-app] #2431 = #2426 #2430
[instance] 0x0 #2431
[attach-enode] #2431 0
[end-of-instance]
[mk-quant] #2431 internal_u_tokenizer__error__SourceRange_unbox_axiom_definition 1 #2427 #2430
[attach-var-names] #2431 (|x| ; |Poly|)
[mk-app] #2432 uInv #269 #219
[mk-app] #2433 and #2432 #467
[mk-app] #2434 u_tokenizer!error.SourceRange./SourceRange #219 #122
[mk-app] #2435 Poly%u_tokenizer!error.SourceRange. #2434
[mk-app] #2436 has_type #2435 #2421
[mk-app] #2437 => #2433 #2436
[mk-app] #2438 pattern #2436
[mk-quant] #2439 internal_u_tokenizer!error.SourceRange./SourceRange_constructor_definition 2 #2438 #2437
[attach-var-names] #2439 (|_end!| ; |Int|) (|_start!| ; |Int|)
[mk-app] #2440 not #2433
[mk-app] #2441 or #2440 #2436
[inst-discovered] theory-solving 0x0 basic# ; #2437
[mk-app] #2442 = #2437 #2441
[instance] 0x0 #2442
[attach-enode] #2442 0
[end-of-instance]
[mk-quant] #2442 internal_u_tokenizer!error.SourceRange./SourceRange_constructor_definition 2 #2438 #2441
[attach-var-names] #2442 (|_end!| ; |Int|) (|_start!| ; |Int|)
[mk-app] #2443 u_tokenizer!error.SourceRange./SourceRange/start #2415
[mk-app] #2444 u_tokenizer!error.SourceRange./SourceRange/?start #2415
[mk-app] #2445 = #2443 #2444
[mk-app] #2446 pattern #2443
[mk-quant] #2447 internal_u_tokenizer!error.SourceRange./SourceRange/start_accessor_definition 1 #2446 #2445
[attach-var-names] #2447 (|x| ; |u_tokenizer!error.SourceRange.|)
[mk-app] #2448 u_tokenizer!error.SourceRange./SourceRange/start #2423
[mk-app] #2449 uInv #269 #2448
[mk-app] #2450 => #2422 #2449
[mk-app] #2451 pattern #2448 #2422
[mk-quant] #2452 internal_u_tokenizer!error.SourceRange./SourceRange/start_invariant_definition 1 #2451 #2450
[attach-var-names] #2452 (|x| ; |Poly|)
[mk-app] #2453 or #2429 #2449
[inst-discovered] theory-solving 0x0 basic# ; #2450
[mk-app] #2454 = #2450 #2453
[instance] 0x0 #2454
[attach-enode] #2454 0
[end-of-instance]
[mk-quant] #2454 internal_u_tokenizer!error.SourceRange./SourceRange/start_invariant_definition 1 #2451 #2453
[attach-var-names] #2454 (|x| ; |Poly|)
[mk-app] #2455 u_tokenizer!error.SourceRange./SourceRange/end #2415
[mk-app] #2456 u_tokenizer!error.SourceRange./SourceRange/?end #2415
[mk-app] #2457 = #2455 #2456
[mk-app] #2458 pattern #2455
[mk-quant] #2459 internal_u_tokenizer!error.SourceRange./SourceRange/end_accessor_definition 1 #2458 #2457
[attach-var-names] #2459 (|x| ; |u_tokenizer!error.SourceRange.|)
[mk-app] #2460 u_tokenizer!error.SourceRange./SourceRange/end #2423
[mk-app] #2461 uInv #269 #2460
[mk-app] #2462 => #2422 #2461
[mk-app] #2463 pattern #2460 #2422
[mk-quant] #2464 internal_u_tokenizer!error.SourceRange./SourceRange/end_invariant_definition 1 #2463 #2462
[attach-var-names] #2464 (|x| ; |Poly|)
[mk-app] #2465 or #2429 #2461
[inst-discovered] theory-solving 0x0 basic# ; #2462
[mk-app] #2466 = #2462 #2465
[instance] 0x0 #2466
[attach-enode] #2466 0
[end-of-instance]
[mk-quant] #2466 internal_u_tokenizer!error.SourceRange./SourceRange/end_invariant_definition 1 #2463 #2465
[attach-var-names] #2466 (|x| ; |Poly|)
[mk-var] #2467 0
[mk-app] #2468 Poly%u_tokenizer!token.Token. #2467
[mk-app] #2469 %Poly%u_tokenizer!token.Token. #2468
[mk-app] #2470 = #2467 #2469
[mk-app] #2471 pattern #2468
[mk-quant] #2472 internal_u_tokenizer__token__Token_box_axiom_definition 1 #2471 #2470
[attach-var-names] #2472 (|x| ; |u_tokenizer!token.Token.|)
[mk-app] #2473 has_type #33 #1402
[mk-app] #2474 %Poly%u_tokenizer!token.Token. #33
[mk-app] #2475 Poly%u_tokenizer!token.Token. #2474
[mk-app] #2476 = #33 #2475
[mk-app] #2477 => #2473 #2476
[mk-app] #2478 pattern #2473
[mk-quant] #2479 internal_u_tokenizer__token__Token_unbox_axiom_definition 1 #2478 #2477
[attach-var-names] #2479 (|x| ; |Poly|)
[mk-app] #2480 not #2473
[mk-app] #2481 or #2480 #2476
[inst-discovered] theory-solving 0x0 basic# ; #2477
[mk-app] #2482 = #2477 #2481
[instance] 0x0 #2482
[attach-enode] #2482 0
[end-of-instance]
[mk-quant] #2482 internal_u_tokenizer__token__Token_unbox_axiom_definition 1 #2478 #2481
[attach-var-names] #2482 (|x| ; |Poly|)
[mk-var] #2483 1
[mk-var] #2484 0
[mk-app] #2485 Poly%u_tokenizer!error.SourceRange. #2483
[mk-app] #2486 has_type #2485 #2421
[mk-app] #2487 Poly%u_tokenizer!token.Variant. #2484
[mk-app] #2488 TYPE%u_tokenizer!token.Variant.
[mk-app] #2489 has_type #2487 #2488
[mk-app] #2490 and #2486 #2489
[mk-app] #2491 u_tokenizer!token.Token./Token #2483 #2484
[mk-app] #2492 Poly%u_tokenizer!token.Token. #2491
[mk-app] #2493 has_type #2492 #1402
[mk-app] #2494 => #2490 #2493
[mk-app] #2495 pattern #2493
[mk-quant] #2496 internal_u_tokenizer!token.Token./Token_constructor_definition 2 #2495 #2494
[attach-var-names] #2496 (|_variant!| ; |u_tokenizer!token.Variant.|) (|_source_range!| ; |u_tokenizer!error.SourceRange.|)
[mk-app] #2497 not #2490
[mk-app] #2498 or #2497 #2493
[inst-discovered] theory-solving 0x0 basic# ; #2494
[mk-app] #2499 = #2494 #2498
[instance] 0x0 #2499
[attach-enode] #2499 0
[end-of-instance]
[mk-quant] #2499 internal_u_tokenizer!token.Token./Token_constructor_definition 2 #2495 #2498
[attach-var-names] #2499 (|_variant!| ; |u_tokenizer!token.Variant.|) (|_source_range!| ; |u_tokenizer!error.SourceRange.|)
[mk-app] #2500 u_tokenizer!token.Token./Token/source_range #2467
[mk-app] #2501 u_tokenizer!token.Token./Token/?source_range #2467
[mk-app] #2502 = #2500 #2501
[mk-app] #2503 pattern #2500
[mk-quant] #2504 internal_u_tokenizer!token.Token./Token/source_range_accessor_definition 1 #2503 #2502
[attach-var-names] #2504 (|x| ; |u_tokenizer!token.Token.|)
[mk-app] #2505 u_tokenizer!token.Token./Token/source_range #2474
[mk-app] #2506 Poly%u_tokenizer!error.SourceRange. #2505
[mk-app] #2507 has_type #2506 #2421
[mk-app] #2508 => #2473 #2507
[mk-app] #2509 pattern #2505 #2473
[mk-quant] #2510 internal_u_tokenizer!token.Token./Token/source_range_invariant_definition 1 #2509 #2508
[attach-var-names] #2510 (|x| ; |Poly|)
[mk-app] #2511 or #2480 #2507
[inst-discovered] theory-solving 0x0 basic# ; #2508
[mk-app] #2512 = #2508 #2511
[instance] 0x0 #2512
[attach-enode] #2512 0
[end-of-instance]
[mk-quant] #2512 internal_u_tokenizer!token.Token./Token/source_range_invariant_definition 1 #2509 #2511
[attach-var-names] #2512 (|x| ; |Poly|)
[mk-app] #2513 u_tokenizer!token.Token./Token/variant #2467
[mk-app] #2514 u_tokenizer!token.Token./Token/?variant #2467
[mk-app] #2515 = #2513 #2514
[mk-app] #2516 pattern #2513
[mk-quant] #2517 internal_u_tokenizer!token.Token./Token/variant_accessor_definition 1 #2516 #2515
[attach-var-names] #2517 (|x| ; |u_tokenizer!token.Token.|)
[mk-app] #2518 u_tokenizer!token.Token./Token/variant #2474
[mk-app] #2519 Poly%u_tokenizer!token.Variant. #2518
[mk-app] #2520 has_type #2519 #2488
[mk-app] #2521 => #2473 #2520
[mk-app] #2522 pattern #2518 #2473
[mk-quant] #2523 internal_u_tokenizer!token.Token./Token/variant_invariant_definition 1 #2522 #2521
[attach-var-names] #2523 (|x| ; |Poly|)
[mk-app] #2524 or #2480 #2520
[inst-discovered] theory-solving 0x0 basic# ; #2521
[mk-app] #2525 = #2521 #2524
[instance] 0x0 #2525
[attach-enode] #2525 0
[end-of-instance]
[mk-quant] #2525 internal_u_tokenizer!token.Token./Token/variant_invariant_definition 1 #2522 #2524
[attach-var-names] #2525 (|x| ; |Poly|)
[mk-app] #2526 %Poly%u_tokenizer!token.Variant. #2487
[mk-app] #2527 = #2484 #2526
[mk-app] #2528 pattern #2487
[mk-quant] #2529 internal_u_tokenizer__token__Variant_box_axiom_definition 1 #2528 #2527
[attach-var-names] #2529 (|x| ; |u_tokenizer!token.Variant.|)
[mk-app] #2530 has_type #33 #2488
[mk-app] #2531 %Poly%u_tokenizer!token.Variant. #33
[mk-app] #2532 Poly%u_tokenizer!token.Variant. #2531
[mk-app] #2533 = #33 #2532
[mk-app] #2534 => #2530 #2533
[mk-app] #2535 pattern #2530
[mk-quant] #2536 internal_u_tokenizer__token__Variant_unbox_axiom_definition 1 #2535 #2534
[attach-var-names] #2536 (|x| ; |Poly|)
[mk-app] #2537 not #2530
[mk-app] #2538 or #2537 #2533
[inst-discovered] theory-solving 0x0 basic# ; #2534
[mk-app] #2539 = #2534 #2538
[instance] 0x0 #2539
[attach-enode] #2539 0
[end-of-instance]
[mk-quant] #2539 internal_u_tokenizer__token__Variant_unbox_axiom_definition 1 #2535 #2538
[attach-var-names] #2539 (|x| ; |Poly|)
[mk-app] #2540 u_tokenizer!token.Variant./As
[mk-app] #2541 Poly%u_tokenizer!token.Variant. #2540
[mk-app] #2542 has_type #2541 #2488
[mk-app] #2543 u_tokenizer!token.Variant./Asymmetric
[mk-app] #2544 Poly%u_tokenizer!token.Variant. #2543
[mk-app] #2545 has_type #2544 #2488
[mk-app] #2546 u_tokenizer!token.Variant./Bool
[mk-app] #2547 Poly%u_tokenizer!token.Variant. #2546
[mk-app] #2548 has_type #2547 #2488
[mk-app] #2549 u_tokenizer!token.Variant./Bytes
[mk-app] #2550 Poly%u_tokenizer!token.Variant. #2549
[mk-app] #2551 has_type #2550 #2488
[mk-app] #2552 u_tokenizer!token.Variant./Choice
[mk-app] #2553 Poly%u_tokenizer!token.Variant. #2552
[mk-app] #2554 has_type #2553 #2488
[mk-app] #2555 u_tokenizer!token.Variant./Colon
[mk-app] #2556 Poly%u_tokenizer!token.Variant. #2555
[mk-app] #2557 has_type #2556 #2488
[mk-app] #2558 u_tokenizer!token.Variant./Comment #1355
[mk-app] #2559 Poly%u_tokenizer!token.Variant. #2558
[mk-app] #2560 has_type #2559 #2488
[mk-app] #2561 pattern #2560
[mk-quant] #2562 internal_u_tokenizer!token.Variant./Comment_constructor_definition 1 #2561 #2560
[attach-var-names] #2562 (|_0!| ; |alloc!vec.Vec<alloc!string.String./alloc!alloc.Global.>.|)
[mk-app] #2563 u_tokenizer!token.Variant./Comment/0 #2484
[mk-app] #2564 u_tokenizer!token.Variant./Comment/?0 #2484
[mk-app] #2565 = #2563 #2564
[mk-app] #2566 pattern #2563
[mk-quant] #2567 internal_u_tokenizer!token.Variant./Comment/0_accessor_definition 1 #2566 #2565
[attach-var-names] #2567 (|x| ; |u_tokenizer!token.Variant.|)
[mk-app] #2568 u_tokenizer!token.Variant./Deleted
[mk-app] #2569 Poly%u_tokenizer!token.Variant. #2568
[mk-app] #2570 has_type #2569 #2488
[mk-app] #2571 u_tokenizer!token.Variant./Dot
[mk-app] #2572 Poly%u_tokenizer!token.Variant. #2571
[mk-app] #2573 has_type #2572 #2488
[mk-app] #2574 u_tokenizer!token.Variant./Equals
[mk-app] #2575 Poly%u_tokenizer!token.Variant. #2574
[mk-app] #2576 has_type #2575 #2488
[mk-app] #2577 u_tokenizer!token.Variant./F64
[mk-app] #2578 Poly%u_tokenizer!token.Variant. #2577
[mk-app] #2579 has_type #2578 #2488
[mk-app] #2580 u_tokenizer!token.Variant./Identifier #1597
[mk-app] #2581 Poly%u_tokenizer!token.Variant. #2580
[mk-app] #2582 has_type #2581 #2488
[mk-app] #2583 pattern #2582
[mk-quant] #2584 internal_u_tokenizer!token.Variant./Identifier_constructor_definition 1 #2583 #2582
[attach-var-names] #2584 (|_0!| ; |u_tokenizer!identifier.Identifier.|)
[mk-app] #2585 u_tokenizer!token.Variant./Identifier/0 #2484
[mk-app] #2586 u_tokenizer!token.Variant./Identifier/?0 #2484
[mk-app] #2587 = #2585 #2586
[mk-app] #2588 pattern #2585
[mk-quant] #2589 internal_u_tokenizer!token.Variant./Identifier/0_accessor_definition 1 #2588 #2587
[attach-var-names] #2589 (|x| ; |u_tokenizer!token.Variant.|)
[mk-app] #2590 u_tokenizer!token.Variant./Import
[mk-app] #2591 Poly%u_tokenizer!token.Variant. #2590
[mk-app] #2592 has_type #2591 #2488
[mk-app] #2593 u_tokenizer!token.Variant./Integer #122
[mk-app] #2594 Poly%u_tokenizer!token.Variant. #2593
[mk-app] #2595 has_type #2594 #2488
[mk-app] #2596 => #467 #2595
[mk-app] #2597 pattern #2595
[mk-quant] #2598 internal_u_tokenizer!token.Variant./Integer_constructor_definition 1 #2597 #2596
[attach-var-names] #2598 (|_0!| ; |Int|)
[mk-app] #2599 or #472 #2595
[inst-discovered] theory-solving 0x0 basic# ; #2596
[mk-app] #2600 = #2596 #2599
[instance] 0x0 #2600
[attach-enode] #2600 0
[end-of-instance]
[mk-quant] #2600 internal_u_tokenizer!token.Variant./Integer_constructor_definition 1 #2597 #2599
[attach-var-names] #2600 (|_0!| ; |Int|)
[mk-app] #2601 u_tokenizer!token.Variant./Integer/0 #2484
[mk-app] #2602 u_tokenizer!token.Variant./Integer/?0 #2484
[mk-app] #2603 = #2601 #2602
[mk-app] #2604 pattern #2601
[mk-quant] #2605 internal_u_tokenizer!token.Variant./Integer/0_accessor_definition 1 #2604 #2603
[attach-var-names] #2605 (|x| ; |u_tokenizer!token.Variant.|)
[mk-app] #2606 u_tokenizer!token.Variant./Integer/0 #2531
[mk-app] #2607 uInv #269 #2606
[mk-app] #2608 => #2530 #2607
[mk-app] #2609 pattern #2606 #2530
[mk-quant] #2610 internal_u_tokenizer!token.Variant./Integer/0_invariant_definition 1 #2609 #2608
[attach-var-names] #2610 (|x| ; |Poly|)
[mk-app] #2611 or #2537 #2607
[inst-discovered] theory-solving 0x0 basic# ; #2608
[mk-app] #2612 = #2608 #2611
[instance] 0x0 #2612
[attach-enode] #2612 0
[end-of-instance]
[mk-quant] #2612 internal_u_tokenizer!token.Variant./Integer/0_invariant_definition 1 #2609 #2611
[attach-var-names] #2612 (|x| ; |Poly|)
[mk-app] #2613 u_tokenizer!token.Variant./LeftCurly
[mk-app] #2614 Poly%u_tokenizer!token.Variant. #2613
[mk-app] #2615 has_type #2614 #2488
[mk-app] #2616 u_tokenizer!token.Variant./LeftSquare
[mk-app] #2617 Poly%u_tokenizer!token.Variant. #2616
[mk-app] #2618 has_type #2617 #2488
[mk-app] #2619 u_tokenizer!token.Variant./Optional
[mk-app] #2620 Poly%u_tokenizer!token.Variant. #2619
[mk-app] #2621 has_type #2620 #2488
[mk-app] #2622 u_tokenizer!token.Variant./Path #1657
[mk-app] #2623 Poly%u_tokenizer!token.Variant. #2622
[mk-app] #2624 has_type #2623 #2488
[mk-app] #2625 pattern #2624
[mk-quant] #2626 internal_u_tokenizer!token.Variant./Path_constructor_definition 1 #2625 #2624
[attach-var-names] #2626 (|_0!| ; |u_tokenizer!shim.PathBuf.|)
[mk-app] #2627 u_tokenizer!token.Variant./Path/0 #2484
[mk-app] #2628 u_tokenizer!token.Variant./Path/?0 #2484
[mk-app] #2629 = #2627 #2628
[mk-app] #2630 pattern #2627
[mk-quant] #2631 internal_u_tokenizer!token.Variant./Path/0_accessor_definition 1 #2630 #2629
[attach-var-names] #2631 (|x| ; |u_tokenizer!token.Variant.|)
[mk-app] #2632 u_tokenizer!token.Variant./RightCurly
[mk-app] #2633 Poly%u_tokenizer!token.Variant. #2632
[mk-app] #2634 has_type #2633 #2488
[mk-app] #2635 u_tokenizer!token.Variant./RightSquare
[mk-app] #2636 Poly%u_tokenizer!token.Variant. #2635
[mk-app] #2637 has_type #2636 #2488
[mk-app] #2638 u_tokenizer!token.Variant./S64
[mk-app] #2639 Poly%u_tokenizer!token.Variant. #2638
[mk-app] #2640 has_type #2639 #2488
[mk-app] #2641 u_tokenizer!token.Variant./String
[mk-app] #2642 Poly%u_tokenizer!token.Variant. #2641
[mk-app] #2643 has_type #2642 #2488
[mk-app] #2644 u_tokenizer!token.Variant./Struct
[mk-app] #2645 Poly%u_tokenizer!token.Variant. #2644
[mk-app] #2646 has_type #2645 #2488
[mk-app] #2647 u_tokenizer!token.Variant./U64
[mk-app] #2648 Poly%u_tokenizer!token.Variant. #2647
[mk-app] #2649 has_type #2648 #2488
[mk-app] #2650 u_tokenizer!token.Variant./Unit
[mk-app] #2651 Poly%u_tokenizer!token.Variant. #2650
[mk-app] #2652 has_type #2651 #2488
[mk-var] #2653 0
[mk-app] #2654 Poly%tuple%0. #2653
[mk-app] #2655 %Poly%tuple%0. #2654
[mk-app] #2656 = #2653 #2655
[mk-app] #2657 pattern #2654
[mk-quant] #2658 internal_crate__tuple__0_box_axiom_definition 1 #2657 #2656
[attach-var-names] #2658 (|x| ; |tuple%0.|)
[mk-app] #2659 has_type #33 #1184
[mk-app] #2660 %Poly%tuple%0. #33
[mk-app] #2661 Poly%tuple%0. #2660
[mk-app] #2662 = #33 #2661
[mk-app] #2663 => #2659 #2662
[mk-app] #2664 pattern #2659
[mk-quant] #2665 internal_crate__tuple__0_unbox_axiom_definition 1 #2664 #2663
[attach-var-names] #2665 (|x| ; |Poly|)
[mk-app] #2666 not #2659
[mk-app] #2667 or #2666 #2662
[inst-discovered] theory-solving 0x0 basic# ; #2663
[mk-app] #2668 = #2663 #2667
[instance] 0x0 #2668
[attach-enode] #2668 0
[end-of-instance]
[mk-quant] #2668 internal_crate__tuple__0_unbox_axiom_definition 1 #2664 #2667
[attach-var-names] #2668 (|x| ; |Poly|)
[mk-app] #2669 has_type #2654 #1184
[mk-app] #2670 pattern #2669
[mk-quant] #2671 internal_crate__tuple__0_has_type_always_definition 1 #2670 #2669
[attach-var-names] #2671 (|x| ; |tuple%0.|)
[mk-var] #2672 0
[mk-app] #2673 Poly%tuple%1. #2672
[mk-app] #2674 %Poly%tuple%1. #2673
[mk-app] #2675 = #2672 #2674
[mk-app] #2676 pattern #2673
[mk-quant] #2677 internal_crate__tuple__1_box_axiom_definition 1 #2676 #2675
[attach-var-names] #2677 (|x| ; |tuple%1.|)
[mk-app] #2678 TYPE%tuple%1. #64 #65
[mk-app] #2679 has_type #33 #2678
[mk-app] #2680 %Poly%tuple%1. #33
[mk-app] #2681 Poly%tuple%1. #2680
[mk-app] #2682 = #33 #2681
[mk-app] #2683 => #2679 #2682
[mk-app] #2684 pattern #2679
[mk-quant] #2685 internal_crate__tuple__1_unbox_axiom_definition 3 #2684 #2683
[attach-var-names] #2685 (|x| ; |Poly|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2686 not #2679
[mk-app] #2687 or #2686 #2682
[inst-discovered] theory-solving 0x0 basic# ; #2683
[mk-app] #2688 = #2683 #2687
[instance] 0x0 #2688
[attach-enode] #2688 0
[end-of-instance]
[mk-quant] #2688 internal_crate__tuple__1_unbox_axiom_definition 3 #2684 #2687
[attach-var-names] #2688 (|x| ; |Poly|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2689 tuple%1./tuple%1 #33
[mk-app] #2690 Poly%tuple%1. #2689
[mk-app] #2691 has_type #2690 #2678
[mk-app] #2692 => #68 #2691
[mk-app] #2693 pattern #2691
[mk-quant] #2694 internal_tuple__1./tuple__1_constructor_definition 3 #2693 #2692
[attach-var-names] #2694 (|_0!| ; |Poly|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2695 or #1726 #2691
[inst-discovered] theory-solving 0x0 basic# ; #2692
[mk-app] #2696 = #2692 #2695
[instance] 0x0 #2696
[attach-enode] #2696 0
[end-of-instance]
[mk-quant] #2696 internal_tuple__1./tuple__1_constructor_definition 3 #2693 #2695
[attach-var-names] #2696 (|_0!| ; |Poly|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2697 tuple%1./tuple%1/0 #2672
[mk-app] #2698 tuple%1./tuple%1/?0 #2672
[mk-app] #2699 = #2697 #2698
[mk-app] #2700 pattern #2697
[mk-quant] #2701 internal_tuple__1./tuple__1/0_accessor_definition 1 #2700 #2699
[attach-var-names] #2701 (|x| ; |tuple%1.|)
[mk-app] #2702 tuple%1./tuple%1/0 #2680
[mk-app] #2703 has_type #2702 #65
[mk-app] #2704 => #2679 #2703
[mk-app] #2705 pattern #2702 #2679
[mk-quant] #2706 internal_tuple__1./tuple__1/0_invariant_definition 3 #2705 #2704
[attach-var-names] #2706 (|x| ; |Poly|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2707 or #2686 #2703
[inst-discovered] theory-solving 0x0 basic# ; #2704
[mk-app] #2708 = #2704 #2707
[instance] 0x0 #2708
[attach-enode] #2708 0
[end-of-instance]
[mk-quant] #2708 internal_tuple__1./tuple__1/0_invariant_definition 3 #2705 #2707
[attach-var-names] #2708 (|x| ; |Poly|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2709 is-tuple%1./tuple%1 #2672
[mk-app] #2710 height #2697
[mk-app] #2711 height #2673
[mk-app] #2712 height_lt #2710 #2711
[mk-app] #2713 => #2709 #2712
[mk-app] #2714 pattern #2710
[mk-quant] #2715 prelude_datatype_height_tuple%1./tuple%1/0 1 #2714 #2713
[attach-var-names] #2715 (|x| ; |tuple%1.|)
[mk-app] #2716 is #2672
[inst-discovered] theory-solving 0x0 datatype# ; #2709
[mk-app] #2717 = #2709 #2716
[instance] 0x0 #2717
[attach-enode] #2717 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2716
[mk-app] #2717 = #2716 #1
[instance] 0x0 #2717
[attach-enode] #2717 0
[end-of-instance]
[mk-app] #2717 => #1 #2712
[inst-discovered] theory-solving 0x0 basic# ; #2717
[mk-app] #2718 = #2717 #2712
[instance] 0x0 #2718
[attach-enode] #2718 0
[end-of-instance]
[mk-quant] #2717 prelude_datatype_height_tuple%1./tuple%1/0 1 #2714 #2712
[attach-var-names] #2717 (|x| ; |tuple%1.|)
[mk-app] #2716 TYPE%tuple%1. #1216 #1217
[mk-app] #2718 has_type #32 #2716
[mk-app] #2719 has_type #33 #2716
[mk-app] #2720 %Poly%tuple%1. #32
[mk-app] #2721 tuple%1./tuple%1/0 #2720
[mk-app] #2722 ext_eq #1273 #1217 #2721 #2702
[mk-app] #2723 and #2718 #2719 #2722
[mk-app] #2724 ext_eq #1273 #2716 #32 #33
[mk-app] #2725 => #2723 #2724
[mk-app] #2726 pattern #2724
[mk-quant] #2727 internal_tuple__1./tuple__1_ext_equal_definition 5 #2726 #2725
[attach-var-names] #2727 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2728 not #2723
[mk-app] #2729 or #2728 #2724
[inst-discovered] theory-solving 0x0 basic# ; #2725
[mk-app] #2730 = #2725 #2729
[instance] 0x0 #2730
[attach-enode] #2730 0
[end-of-instance]
[mk-quant] #2730 internal_tuple__1./tuple__1_ext_equal_definition 5 #2726 #2729
[attach-var-names] #2730 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-var] #2731 0
[mk-app] #2732 Poly%tuple%2. #2731
[mk-app] #2733 %Poly%tuple%2. #2732
[mk-app] #2734 = #2731 #2733
[mk-app] #2735 pattern #2732
[mk-quant] #2736 internal_crate__tuple__2_box_axiom_definition 1 #2735 #2734
[attach-var-names] #2736 (|x| ; |tuple%2.|)
[mk-app] #2737 TYPE%tuple%2. #1216 #1217 #64 #65
[mk-app] #2738 has_type #33 #2737
[mk-app] #2739 %Poly%tuple%2. #33
[mk-app] #2740 Poly%tuple%2. #2739
[mk-app] #2741 = #33 #2740
[mk-app] #2742 => #2738 #2741
[mk-app] #2743 pattern #2738
[mk-quant] #2744 internal_crate__tuple__2_unbox_axiom_definition 5 #2743 #2742
[attach-var-names] #2744 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2745 not #2738
[mk-app] #2746 or #2745 #2741
[inst-discovered] theory-solving 0x0 basic# ; #2742
[mk-app] #2747 = #2742 #2746
[instance] 0x0 #2747
[attach-enode] #2747 0
[end-of-instance]
[mk-quant] #2747 internal_crate__tuple__2_unbox_axiom_definition 5 #2743 #2746
[attach-var-names] #2747 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2748 and #1252 #1988
[mk-app] #2749 tuple%2./tuple%2 #32 #33
[mk-app] #2750 Poly%tuple%2. #2749
[mk-app] #2751 TYPE%tuple%2. #1248 #1229 #1249 #263
[mk-app] #2752 has_type #2750 #2751
[mk-app] #2753 => #2748 #2752
[mk-app] #2754 pattern #2752
[mk-quant] #2755 internal_tuple__2./tuple__2_constructor_definition 6 #2754 #2753
[attach-var-names] #2755 (|_1!| ; |Poly|) (|_0!| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2756 not #2748
[mk-app] #2757 or #2756 #2752
[inst-discovered] theory-solving 0x0 basic# ; #2753
[mk-app] #2758 = #2753 #2757
[instance] 0x0 #2758
[attach-enode] #2758 0
[end-of-instance]
[mk-quant] #2758 internal_tuple__2./tuple__2_constructor_definition 6 #2754 #2757
[attach-var-names] #2758 (|_1!| ; |Poly|) (|_0!| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2759 tuple%2./tuple%2/0 #2731
[mk-app] #2760 tuple%2./tuple%2/?0 #2731
[mk-app] #2761 = #2759 #2760
[mk-app] #2762 pattern #2759
[mk-quant] #2763 internal_tuple__2./tuple__2/0_accessor_definition 1 #2762 #2761
[attach-var-names] #2763 (|x| ; |tuple%2.|)
[mk-app] #2764 tuple%2./tuple%2/0 #2739
[mk-app] #2765 has_type #2764 #1217
[mk-app] #2766 => #2738 #2765
[mk-app] #2767 pattern #2764 #2738
[mk-quant] #2768 internal_tuple__2./tuple__2/0_invariant_definition 5 #2767 #2766
[attach-var-names] #2768 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2769 or #2745 #2765
[inst-discovered] theory-solving 0x0 basic# ; #2766
[mk-app] #2770 = #2766 #2769
[instance] 0x0 #2770
[attach-enode] #2770 0
[end-of-instance]
[mk-quant] #2770 internal_tuple__2./tuple__2/0_invariant_definition 5 #2767 #2769
[attach-var-names] #2770 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2771 tuple%2./tuple%2/1 #2731
[mk-app] #2772 tuple%2./tuple%2/?1 #2731
[mk-app] #2773 = #2771 #2772
[mk-app] #2774 pattern #2771
[mk-quant] #2775 internal_tuple__2./tuple__2/1_accessor_definition 1 #2774 #2773
[attach-var-names] #2775 (|x| ; |tuple%2.|)
[mk-app] #2776 tuple%2./tuple%2/1 #2739
[mk-app] #2777 has_type #2776 #65
[mk-app] #2778 => #2738 #2777
[mk-app] #2779 pattern #2776 #2738
[mk-quant] #2780 internal_tuple__2./tuple__2/1_invariant_definition 5 #2779 #2778
[attach-var-names] #2780 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2781 or #2745 #2777
[inst-discovered] theory-solving 0x0 basic# ; #2778
[mk-app] #2782 = #2778 #2781
[instance] 0x0 #2782
[attach-enode] #2782 0
[end-of-instance]
[mk-quant] #2782 internal_tuple__2./tuple__2/1_invariant_definition 5 #2779 #2781
[attach-var-names] #2782 (|x| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2783 is-tuple%2./tuple%2 #2731
[mk-app] #2784 height #2759
[mk-app] #2785 height #2732
[mk-app] #2786 height_lt #2784 #2785
[mk-app] #2787 => #2783 #2786
[mk-app] #2788 pattern #2784
[mk-quant] #2789 prelude_datatype_height_tuple%2./tuple%2/0 1 #2788 #2787
[attach-var-names] #2789 (|x| ; |tuple%2.|)
[mk-app] #2790 is #2731
[inst-discovered] theory-solving 0x0 datatype# ; #2783
[mk-app] #2791 = #2783 #2790
[instance] 0x0 #2791
[attach-enode] #2791 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2790
[mk-app] #2791 = #2790 #1
[instance] 0x0 #2791
[attach-enode] #2791 0
[end-of-instance]
[mk-app] #2791 => #1 #2786
[inst-discovered] theory-solving 0x0 basic# ; #2791
[mk-app] #2792 = #2791 #2786
[instance] 0x0 #2792
[attach-enode] #2792 0
[end-of-instance]
[mk-quant] #2791 prelude_datatype_height_tuple%2./tuple%2/0 1 #2788 #2786
[attach-var-names] #2791 (|x| ; |tuple%2.|)
[mk-app] #2790 height #2771
[mk-app] #2792 height_lt #2790 #2785
[mk-app] #2793 => #2783 #2792
[mk-app] #2794 pattern #2790
[mk-quant] #2795 prelude_datatype_height_tuple%2./tuple%2/1 1 #2794 #2793
[attach-var-names] #2795 (|x| ; |tuple%2.|)
[mk-app] #2796 is #2731
[inst-discovered] theory-solving 0x0 datatype# ; #2783
[mk-app] #2797 = #2783 #2796
[instance] 0x0 #2797
[attach-enode] #2797 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #2796
[mk-app] #2797 = #2796 #1
[instance] 0x0 #2797
[attach-enode] #2797 0
[end-of-instance]
[mk-app] #2797 => #1 #2792
[inst-discovered] theory-solving 0x0 basic# ; #2797
[mk-app] #2798 = #2797 #2792
[instance] 0x0 #2798
[attach-enode] #2798 0
[end-of-instance]
[mk-quant] #2797 prelude_datatype_height_tuple%2./tuple%2/1 1 #2794 #2792
[attach-var-names] #2797 (|x| ; |tuple%2.|)
[mk-app] #2796 TYPE%tuple%2. #1271 #1272 #1216 #1217
[mk-app] #2798 has_type #32 #2796
[mk-app] #2799 has_type #33 #2796
[mk-app] #2800 %Poly%tuple%2. #32
[mk-app] #2801 tuple%2./tuple%2/0 #2800
[mk-app] #2802 ext_eq #1273 #1272 #2801 #2764
[mk-app] #2803 tuple%2./tuple%2/1 #2800
[mk-app] #2804 ext_eq #1273 #1217 #2803 #2776
[mk-app] #2805 and #2798 #2799 #2802 #2804
[mk-app] #2806 ext_eq #1273 #2796 #32 #33
[mk-app] #2807 => #2805 #2806
[mk-app] #2808 pattern #2806
[mk-quant] #2809 internal_tuple__2./tuple__2_ext_equal_definition 7 #2808 #2807
[attach-var-names] #2809 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2810 not #2805
[mk-app] #2811 or #2810 #2806
[inst-discovered] theory-solving 0x0 basic# ; #2807
[mk-app] #2812 = #2807 #2811
[instance] 0x0 #2812
[attach-enode] #2812 0
[end-of-instance]
[mk-quant] #2812 internal_tuple__2./tuple__2_ext_equal_definition 7 #2808 #2811
[attach-var-names] #2812 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #2813 array_new #1249 #263 #219 #156
[mk-app] #2814 = #2813 #1299
[mk-app] #2815 pattern #2813
[mk-quant] #2816 prelude_array_new 4 #2815 #2814
[attach-var-names] #2816 (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #2817 < #122 #2055
[mk-app] #2818 and #337 #2817
[mk-app] #2819 %%apply%%1 #1231 #122
[mk-app] #2820 has_type #2819 #1217
[mk-app] #2821 => #2818 #2820
[mk-app] #2822 pattern #2820
[mk-quant] #2823 prelude_has_type_array_elts 1 #2822 #2821
[attach-var-names] #2823 (|i| ; |Int|)
[mk-app] #2824 CONST_INT #219
[mk-app] #2825 ARRAY #1249 #263 #120 #2824
[mk-app] #2826 has_type #2813 #2825
[mk-app] #2827 => #2823 #2826
[mk-quant] #2828 prelude_has_type_array_new 4 #2815 #2827
[attach-var-names] #2828 (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[attach-meaning] #363 arith (- 1)
[mk-app] #2829 * #363 #122
[inst-discovered] theory-solving 0x0 arith# ; #337
[mk-app] #2829 = #337 #346
[instance] 0x0 #2829
[attach-enode] #2829 0
[end-of-instance]
[mk-app] #2829 <= #2055 #122
[mk-app] #2830 not #2829
[inst-discovered] theory-solving 0x0 arith# ; #2817
[mk-app] #2831 = #2817 #2830
[instance] 0x0 #2831
[attach-enode] #2831 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #2831 * #363 #122
[mk-app] #2832 + #2831 #2055
[attach-meaning] #363 arith (- 1)
[mk-app] #2833 * #363 #2055
[mk-app] #2834 + #122 #2833
[mk-app] #2831 >= #2834 #334
[inst-discovered] theory-solving 0x0 arith# ; #2829
[mk-app] #2832 = #2829 #2831
[instance] 0x0 #2832
[attach-enode] #2832 0
[end-of-instance]
[mk-app] #2832 not #2831
[mk-app] #2835 and #346 #2832
[mk-app] #2836 not #2835
[mk-app] #2837 or #2836 #2820
[mk-app] #2838 => #2835 #2820
[inst-discovered] theory-solving 0x0 basic# ; #2838
[mk-app] #2839 = #2838 #2837
[instance] 0x0 #2839
[attach-enode] #2839 0
[end-of-instance]
[mk-quant] #2838 prelude_has_type_array_elts 1 #2822 #2837
[attach-var-names] #2838 (|i| ; |Int|)
[mk-app] #2829 not #2838
[mk-app] #2830 or #2829 #2826
[mk-app] #2839 => #2838 #2826
[inst-discovered] theory-solving 0x0 basic# ; #2839
[mk-app] #2840 = #2839 #2830
[instance] 0x0 #2840
[attach-enode] #2840 0
[end-of-instance]
[mk-quant] #2839 prelude_has_type_array_new 4 #2815 #2830
[attach-var-names] #2839 (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #2840 Poly%array%. #1231
[mk-app] #2841 ARRAY #1271 #1272 #1249 #263
[mk-app] #2842 has_type #2840 #2841
[mk-app] #2843 and #2842 #185
[mk-app] #2844 array_index #1271 #1272 #1216 #263 #1231 #33
[mk-app] #2845 has_type #2844 #1272
[mk-app] #2846 => #2843 #2845
[mk-app] #2847 pattern #2844 #2842
[mk-quant] #2848 prelude_has_type_array_index 7 #2847 #2846
[attach-var-names] #2848 (|i| ; |Poly|) (|Fn| ; |%%Function%%|) (|N| ; |Type|) (|Ndcr| ; |Dcr|) (|Nd| ; |Dcr|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #2849 not #2843
[mk-app] #2850 or #2849 #2845
[inst-discovered] theory-solving 0x0 basic# ; #2846
[mk-app] #2851 = #2846 #2850
[instance] 0x0 #2851
[attach-enode] #2851 0
[end-of-instance]
[mk-quant] #2851 prelude_has_type_array_index 7 #2847 #2850
[attach-var-names] #2851 (|i| ; |Poly|) (|Fn| ; |%%Function%%|) (|N| ; |Type|) (|Ndcr| ; |Dcr|) (|Nd| ; |Dcr|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #2852 CONST_INT #2055
[mk-app] #2853 array_index #1216 #1217 #120 #2852 #1231 #165
[mk-app] #2854 = #2853 #2819
[mk-app] #2855 array_new #1216 #1217 #2055 #1231
[mk-app] #2856 pattern #2855 #2819
[mk-quant] #2857 prelude_array_index_trigger 5 #2856 #2854
[attach-var-names] #2857 (|i| ; |Int|) (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #2858 str%new_strlit #122
[mk-app] #2859 str%from_strlit #2858
[mk-app] #2860 = #2859 #122
[mk-app] #2861 pattern #2858
[mk-quant] #2862 prelude_strlit_injective 1 #2861 #2860
[attach-var-names] #2862 (|x| ; |Int|)
[mk-app] #2863 has_resolved #120 #1402 #33
[mk-app] #2864 has_resolved #120 #2421 #2506
[mk-app] #2865 => #2863 #2864
[mk-app] #2866 => #2473 #2865
[mk-app] #2867 pattern #2863 #2505
[mk-quant] #2868 user_no_function_0 1 #2867 #2866
[attach-var-names] #2868 (|x$| ; |Poly|)
[mk-app] #2869 not #2863
[mk-app] #2870 or #2869 #2864
[inst-discovered] theory-solving 0x0 basic# ; #2865
[mk-app] #2871 = #2865 #2870
[instance] 0x0 #2871
[attach-enode] #2871 0
[end-of-instance]
[mk-app] #2871 or #2480 #2869 #2864
[mk-app] #2872 => #2473 #2870
[inst-discovered] theory-solving 0x0 basic# ; #2872
[mk-app] #2873 = #2872 #2871
[instance] 0x0 #2873
[attach-enode] #2873 0
[end-of-instance]
[mk-quant] #2870 user_no_function_0 1 #2867 #2871
[attach-var-names] #2870 (|x$| ; |Poly|)
[mk-app] #2872 has_resolved #120 #2488 #2519
[mk-app] #2873 => #2863 #2872
[mk-app] #2874 => #2473 #2873
[mk-app] #2875 pattern #2863 #2518
[mk-quant] #2876 user_no_function_1 1 #2875 #2874
[attach-var-names] #2876 (|x$| ; |Poly|)
[mk-app] #2877 or #2869 #2872
[inst-discovered] theory-solving 0x0 basic# ; #2873
[mk-app] #2878 = #2873 #2877
[instance] 0x0 #2878
[attach-enode] #2878 0
[end-of-instance]
[mk-app] #2878 or #2480 #2869 #2872
[mk-app] #2879 => #2473 #2877
[inst-discovered] theory-solving 0x0 basic# ; #2879
[mk-app] #2880 = #2879 #2878
[instance] 0x0 #2880
[attach-enode] #2880 0
[end-of-instance]
[mk-quant] #2877 user_no_function_1 1 #2875 #2878
[attach-var-names] #2877 (|x$| ; |Poly|)
[mk-app] #2879 has_resolved #120 #2421 #33
[mk-app] #2880 I #2448
[mk-app] #2881 has_resolved #120 #203 #2880
[mk-app] #2882 => #2879 #2881
[mk-app] #2883 => #2422 #2882
[mk-app] #2884 pattern #2879 #2448
[mk-quant] #2885 user_no_function_2 1 #2884 #2883
[attach-var-names] #2885 (|x$| ; |Poly|)
[mk-app] #2886 not #2879
[mk-app] #2887 or #2886 #2881
[inst-discovered] theory-solving 0x0 basic# ; #2882
[mk-app] #2888 = #2882 #2887
[instance] 0x0 #2888
[attach-enode] #2888 0
[end-of-instance]
[mk-app] #2888 or #2429 #2886 #2881
[mk-app] #2889 => #2422 #2887
[inst-discovered] theory-solving 0x0 basic# ; #2889
[mk-app] #2890 = #2889 #2888
[instance] 0x0 #2890
[attach-enode] #2890 0
[end-of-instance]
[mk-quant] #2887 user_no_function_2 1 #2884 #2888
[attach-var-names] #2887 (|x$| ; |Poly|)
[mk-app] #2889 I #2460
[mk-app] #2890 has_resolved #120 #203 #2889
[mk-app] #2891 => #2879 #2890
[mk-app] #2892 => #2422 #2891
[mk-app] #2893 pattern #2879 #2460
[mk-quant] #2894 user_no_function_3 1 #2893 #2892
[attach-var-names] #2894 (|x$| ; |Poly|)
[mk-app] #2895 or #2886 #2890
[inst-discovered] theory-solving 0x0 basic# ; #2891
[mk-app] #2896 = #2891 #2895
[instance] 0x0 #2896
[attach-enode] #2896 0
[end-of-instance]
[mk-app] #2896 or #2429 #2886 #2890
[mk-app] #2897 => #2422 #2895
[inst-discovered] theory-solving 0x0 basic# ; #2897
[mk-app] #2898 = #2897 #2896
[instance] 0x0 #2898
[attach-enode] #2898 0
[end-of-instance]
[mk-quant] #2895 user_no_function_3 1 #2893 #2896
[attach-var-names] #2895 (|x$| ; |Poly|)
[mk-app] #2897 has_resolved #120 #2488 #33
[mk-app] #2898 is-u_tokenizer!token.Variant./Comment #2531
[mk-app] #2899 and #2897 #2898
[mk-app] #2900 u_tokenizer!token.Variant./Comment/0 #2531
[mk-app] #2901 Poly%alloc!vec.Vec<alloc!string.String./alloc!alloc.Global.>. #2900
[mk-app] #2902 has_resolved #120 #1361 #2901
[mk-app] #2903 => #2899 #2902
[mk-app] #2904 => #2530 #2903
[mk-app] #2905 pattern #2897 #2900
[mk-quant] #2906 user_no_function_4 1 #2905 #2904
[attach-var-names] #2906 (|x$| ; |Poly|)
[mk-app] #2907 is #2531
[inst-discovered] theory-solving 0x0 datatype# ; #2898
[mk-app] #2908 = #2898 #2907
[instance] 0x0 #2908
[attach-enode] #2908 0
[end-of-instance]
[mk-app] #2908 and #2897 #2907
[mk-app] #2909 not #2908
[mk-app] #2910 or #2909 #2902
[mk-app] #2911 => #2908 #2902
[inst-discovered] theory-solving 0x0 basic# ; #2911
[mk-app] #2912 = #2911 #2910
[instance] 0x0 #2912
[attach-enode] #2912 0
[end-of-instance]
[mk-app] #2911 or #2537 #2909 #2902
[mk-app] #2912 => #2530 #2910
[inst-discovered] theory-solving 0x0 basic# ; #2912
[mk-app] #2913 = #2912 #2911
[instance] 0x0 #2913
[attach-enode] #2913 0
[end-of-instance]
[mk-quant] #2910 user_no_function_4 1 #2905 #2911
[attach-var-names] #2910 (|x$| ; |Poly|)
[mk-app] #2912 is-u_tokenizer!token.Variant./Identifier #2531
[mk-app] #2913 and #2897 #2912
[mk-app] #2914 u_tokenizer!token.Variant./Identifier/0 #2531
[mk-app] #2915 Poly%u_tokenizer!identifier.Identifier. #2914
[mk-app] #2916 has_resolved #120 #1603 #2915
[mk-app] #2917 => #2913 #2916
[mk-app] #2918 => #2530 #2917
[mk-app] #2919 pattern #2897 #2914
[mk-quant] #2920 user_no_function_5 1 #2919 #2918
[attach-var-names] #2920 (|x$| ; |Poly|)
[mk-app] #2921 is #2531
[inst-discovered] theory-solving 0x0 datatype# ; #2912
[mk-app] #2922 = #2912 #2921
[instance] 0x0 #2922
[attach-enode] #2922 0
[end-of-instance]
[mk-app] #2922 and #2897 #2921
[mk-app] #2923 not #2922
[mk-app] #2924 or #2923 #2916
[mk-app] #2925 => #2922 #2916
[inst-discovered] theory-solving 0x0 basic# ; #2925
[mk-app] #2926 = #2925 #2924
[instance] 0x0 #2926
[attach-enode] #2926 0
[end-of-instance]
[mk-app] #2925 or #2537 #2923 #2916
[mk-app] #2926 => #2530 #2924
[inst-discovered] theory-solving 0x0 basic# ; #2926
[mk-app] #2927 = #2926 #2925
[instance] 0x0 #2927
[attach-enode] #2927 0
[end-of-instance]
[mk-quant] #2924 user_no_function_5 1 #2919 #2925
[attach-var-names] #2924 (|x$| ; |Poly|)
[mk-app] #2926 is-u_tokenizer!token.Variant./Integer #2531
[mk-app] #2927 and #2897 #2926
[mk-app] #2928 I #2606
[mk-app] #2929 has_resolved #120 #203 #2928
[mk-app] #2930 => #2927 #2929
[mk-app] #2931 => #2530 #2930
[mk-app] #2932 pattern #2897 #2606
[mk-quant] #2933 user_no_function_6 1 #2932 #2931
[attach-var-names] #2933 (|x$| ; |Poly|)
[mk-app] #2934 is #2531
[inst-discovered] theory-solving 0x0 datatype# ; #2926
[mk-app] #2935 = #2926 #2934
[instance] 0x0 #2935
[attach-enode] #2935 0
[end-of-instance]
[mk-app] #2935 and #2897 #2934
[mk-app] #2936 not #2935
[mk-app] #2937 or #2936 #2929
[mk-app] #2938 => #2935 #2929
[inst-discovered] theory-solving 0x0 basic# ; #2938
[mk-app] #2939 = #2938 #2937
[instance] 0x0 #2939
[attach-enode] #2939 0
[end-of-instance]
[mk-app] #2938 or #2537 #2936 #2929
[mk-app] #2939 => #2530 #2937
[inst-discovered] theory-solving 0x0 basic# ; #2939
[mk-app] #2940 = #2939 #2938
[instance] 0x0 #2940
[attach-enode] #2940 0
[end-of-instance]
[mk-quant] #2937 user_no_function_6 1 #2932 #2938
[attach-var-names] #2937 (|x$| ; |Poly|)
[mk-app] #2939 is-u_tokenizer!token.Variant./Path #2531
[mk-app] #2940 and #2897 #2939
[mk-app] #2941 u_tokenizer!token.Variant./Path/0 #2531
[mk-app] #2942 Poly%u_tokenizer!shim.PathBuf. #2941
[mk-app] #2943 has_resolved #120 #1663 #2942
[mk-app] #2944 => #2940 #2943
[mk-app] #2945 => #2530 #2944
[mk-app] #2946 pattern #2897 #2941
[mk-quant] #2947 user_no_function_7 1 #2946 #2945
[attach-var-names] #2947 (|x$| ; |Poly|)
[mk-app] #2948 is #2531
[inst-discovered] theory-solving 0x0 datatype# ; #2939
[mk-app] #2949 = #2939 #2948
[instance] 0x0 #2949
[attach-enode] #2949 0
[end-of-instance]
[mk-app] #2949 and #2897 #2948
[mk-app] #2950 not #2949
[mk-app] #2951 or #2950 #2943
[mk-app] #2952 => #2949 #2943
[inst-discovered] theory-solving 0x0 basic# ; #2952
[mk-app] #2953 = #2952 #2951
[instance] 0x0 #2953
[attach-enode] #2953 0
[end-of-instance]
[mk-app] #2952 or #2537 #2950 #2943
[mk-app] #2953 => #2530 #2951
[inst-discovered] theory-solving 0x0 basic# ; #2953
[mk-app] #2954 = #2953 #2952
[instance] 0x0 #2954
[attach-enode] #2954 0
[end-of-instance]
[mk-quant] #2951 user_no_function_7 1 #2946 #2952
[attach-var-names] #2951 (|x$| ; |Poly|)
[mk-var] #2953 2
[mk-app] #2954 F #2953
[mk-app] #2955 FNDEF%core!iter.traits.iterator.Iterator.next. #44 #45
[mk-app] #2956 has_type #2954 #2955
[mk-app] #2957 pattern #2956
[mk-quant] #2958 prelude_has_type_fndef_FNDEF%core!iter.traits.iterator.Iterator.next. 3 #2957 #2956
[attach-var-names] #2958 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|x| ; |fndef|)
[mk-app] #2959 tr_bound%vstd!array.ArrayAdditionalSpecFns. #1249 #263 #44 #45
[mk-app] #2960 tr_bound%vstd!view.View. #1249 #263
[mk-app] #2961 proj%%vstd!view.View./V #1249 #263
[mk-app] #2962 = #120 #2961
[mk-app] #2963 TYPE%vstd!seq.Seq. #44 #45
[mk-app] #2964 proj%vstd!view.View./V #1249 #263
[mk-app] #2965 = #2963 #2964
[mk-app] #2966 and #2962 #2965
[mk-app] #2967 sized #44
[mk-app] #2968 and #2960 #2966 #2967
[mk-app] #2969 => #2959 #2968
[mk-app] #2970 pattern #2959
[mk-quant] #2971 internal_vstd__array__ArrayAdditionalSpecFns_trait_type_bounds_definition 4 #2970 #2969
[attach-var-names] #2971 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2972 and #2960 #2962 #2965 #2967
[mk-app] #2973 not #2959
[mk-app] #2974 or #2973 #2972
[mk-app] #2975 => #2959 #2972
[inst-discovered] theory-solving 0x0 basic# ; #2975
[mk-app] #2976 = #2975 #2974
[instance] 0x0 #2976
[attach-enode] #2976 0
[end-of-instance]
[mk-quant] #2975 internal_vstd__array__ArrayAdditionalSpecFns_trait_type_bounds_definition 4 #2970 #2974
[attach-var-names] #2975 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2976 tr_bound%vstd!slice.SliceAdditionalSpecFns. #1249 #263 #44 #45
[mk-app] #2977 => #2976 #2968
[mk-app] #2978 pattern #2976
[mk-quant] #2979 internal_vstd__slice__SliceAdditionalSpecFns_trait_type_bounds_definition 4 #2978 #2977
[attach-var-names] #2979 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2980 not #2976
[mk-app] #2981 or #2980 #2972
[mk-app] #2982 => #2976 #2972
[inst-discovered] theory-solving 0x0 basic# ; #2982
[mk-app] #2983 = #2982 #2981
[instance] 0x0 #2983
[attach-enode] #2983 0
[end-of-instance]
[mk-quant] #2982 internal_vstd__slice__SliceAdditionalSpecFns_trait_type_bounds_definition 4 #2978 #2981
[attach-var-names] #2982 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2983 tr_bound%vstd!view.View. #44 #45
[mk-app] #2984 proj%%vstd!view.View./V #44 #45
[mk-app] #2985 sized #2984
[mk-app] #2986 => #2983 #2985
[mk-app] #2987 pattern #2983
[mk-quant] #2988 internal_vstd__view__View_trait_type_bounds_definition 2 #2987 #2986
[attach-var-names] #2988 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2989 not #2983
[mk-app] #2990 or #2989 #2985
[inst-discovered] theory-solving 0x0 basic# ; #2986
[mk-app] #2991 = #2986 #2990
[instance] 0x0 #2991
[attach-enode] #2991 0
[end-of-instance]
[mk-quant] #2991 internal_vstd__view__View_trait_type_bounds_definition 2 #2987 #2990
[attach-var-names] #2991 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2992 tr_bound%core!clone.Clone. #44 #45
[mk-app] #2993 => #2992 #2967
[mk-app] #2994 pattern #2992
[mk-quant] #2995 internal_core__clone__Clone_trait_type_bounds_definition 2 #2994 #2993
[attach-var-names] #2995 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2996 not #2992
[mk-app] #2997 or #2996 #2967
[inst-discovered] theory-solving 0x0 basic# ; #2993
[mk-app] #2998 = #2993 #2997
[instance] 0x0 #2998
[attach-enode] #2998 0
[end-of-instance]
[mk-quant] #2998 internal_core__clone__Clone_trait_type_bounds_definition 2 #2994 #2997
[attach-var-names] #2998 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #2999 tr_bound%core!marker.Copy. #44 #45
[mk-app] #3000 => #2999 #2992
[mk-app] #3001 pattern #2999
[mk-quant] #3002 internal_core__marker__Copy_trait_type_bounds_definition 2 #3001 #3000
[attach-var-names] #3002 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3003 not #2999
[mk-app] #3004 or #3003 #2992
[inst-discovered] theory-solving 0x0 basic# ; #3000
[mk-app] #3005 = #3000 #3004
[instance] 0x0 #3005
[attach-enode] #3005 0
[end-of-instance]
[mk-quant] #3005 internal_core__marker__Copy_trait_type_bounds_definition 2 #3001 #3004
[attach-var-names] #3005 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3006 tr_bound%core!cmp.PartialEq. #1249 #263 #44 #45
[mk-app] #3007 pattern #3006
[mk-quant] #3008 internal_core__cmp__PartialEq_trait_type_bounds_definition 4 #3007 #1
[attach-var-names] #3008 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3009 tr_bound%core!cmp.PartialOrd. #1249 #263 #44 #45
[mk-app] #3010 => #3009 #3006
[mk-app] #3011 pattern #3009
[mk-quant] #3012 internal_core__cmp__PartialOrd_trait_type_bounds_definition 4 #3011 #3010
[attach-var-names] #3012 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3013 not #3009
[mk-app] #3014 or #3013 #3006
[inst-discovered] theory-solving 0x0 basic# ; #3010
[mk-app] #3015 = #3010 #3014
[instance] 0x0 #3015
[attach-enode] #3015 0
[end-of-instance]
[mk-quant] #3015 internal_core__cmp__PartialOrd_trait_type_bounds_definition 4 #3011 #3014
[attach-var-names] #3015 (|Rhs&| ; |Type|) (|Rhs&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3016 tr_bound%core!marker.Tuple. #44 #45
[mk-app] #3017 pattern #3016
[mk-quant] #3018 internal_core__marker__Tuple_trait_type_bounds_definition 2 #3017 #1
[attach-var-names] #3018 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3019 tr_bound%core!ops.function.FnOnce. #1249 #263 #44 #45
[mk-app] #3020 proj%%core!ops.function.FnOnce./Output #1249 #263 #44 #45
[mk-app] #3021 sized #3020
[mk-app] #3022 and #2967 #3016 #3021
[mk-app] #3023 => #3019 #3022
[mk-app] #3024 pattern #3019
[mk-quant] #3025 internal_core__ops__function__FnOnce_trait_type_bounds_definition 4 #3024 #3023
[attach-var-names] #3025 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3026 not #3019
[mk-app] #3027 or #3026 #3022
[inst-discovered] theory-solving 0x0 basic# ; #3023
[mk-app] #3028 = #3023 #3027
[instance] 0x0 #3028
[attach-enode] #3028 0
[end-of-instance]
[mk-quant] #3028 internal_core__ops__function__FnOnce_trait_type_bounds_definition 4 #3024 #3027
[attach-var-names] #3028 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3029 tr_bound%core!ops.function.FnMut. #1249 #263 #44 #45
[mk-app] #3030 and #3019 #2967 #3016
[mk-app] #3031 => #3029 #3030
[mk-app] #3032 pattern #3029
[mk-quant] #3033 internal_core__ops__function__FnMut_trait_type_bounds_definition 4 #3032 #3031
[attach-var-names] #3033 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3034 not #3029
[mk-app] #3035 or #3034 #3030
[inst-discovered] theory-solving 0x0 basic# ; #3031
[mk-app] #3036 = #3031 #3035
[instance] 0x0 #3036
[attach-enode] #3036 0
[end-of-instance]
[mk-quant] #3036 internal_core__ops__function__FnMut_trait_type_bounds_definition 4 #3032 #3035
[attach-var-names] #3036 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3037 tr_bound%core!ops.function.Fn. #1249 #263 #44 #45
[mk-app] #3038 and #3029 #2967 #3016
[mk-app] #3039 => #3037 #3038
[mk-app] #3040 pattern #3037
[mk-quant] #3041 internal_core__ops__function__Fn_trait_type_bounds_definition 4 #3040 #3039
[attach-var-names] #3041 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3042 not #3037
[mk-app] #3043 or #3042 #3038
[inst-discovered] theory-solving 0x0 basic# ; #3039
[mk-app] #3044 = #3039 #3043
[instance] 0x0 #3044
[attach-enode] #3044 0
[end-of-instance]
[mk-quant] #3044 internal_core__ops__function__Fn_trait_type_bounds_definition 4 #3040 #3043
[attach-var-names] #3044 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3045 tr_bound%core!alloc.Allocator. #44 #45
[mk-app] #3046 pattern #3045
[mk-quant] #3047 internal_core__alloc__Allocator_trait_type_bounds_definition 2 #3046 #1
[attach-var-names] #3047 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3048 tr_bound%core!fmt.Debug. #44 #45
[mk-app] #3049 pattern #3048
[mk-quant] #3050 internal_core__fmt__Debug_trait_type_bounds_definition 2 #3049 #1
[attach-var-names] #3050 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3051 tr_bound%core!iter.traits.iterator.Iterator. #44 #45
[mk-app] #3052 proj%%core!iter.traits.iterator.Iterator./Item #44 #45
[mk-app] #3053 sized #3052
[mk-app] #3054 => #3051 #3053
[mk-app] #3055 pattern #3051
[mk-quant] #3056 internal_core__iter__traits__iterator__Iterator_trait_type_bounds_definition 2 #3055 #3054
[attach-var-names] #3056 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3057 not #3051
[mk-app] #3058 or #3057 #3053
[inst-discovered] theory-solving 0x0 basic# ; #3054
[mk-app] #3059 = #3054 #3058
[instance] 0x0 #3059
[attach-enode] #3059 0
[end-of-instance]
[mk-quant] #3059 internal_core__iter__traits__iterator__Iterator_trait_type_bounds_definition 2 #3055 #3058
[attach-var-names] #3059 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3060 tr_bound%core!iter.traits.collect.IntoIterator. #44 #45
[mk-app] #3061 proj%%core!iter.traits.collect.IntoIterator./Item #44 #45
[mk-app] #3062 sized #3061
[mk-app] #3063 proj%%core!iter.traits.collect.IntoIterator./IntoIter #44 #45
[mk-app] #3064 proj%core!iter.traits.collect.IntoIterator./IntoIter #44 #45
[mk-app] #3065 proj%%core!iter.traits.iterator.Iterator./Item #3063 #3064
[mk-app] #3066 = #3061 #3065
[mk-app] #3067 proj%core!iter.traits.collect.IntoIterator./Item #44 #45
[mk-app] #3068 proj%core!iter.traits.iterator.Iterator./Item #3063 #3064
[mk-app] #3069 = #3067 #3068
[mk-app] #3070 and #3066 #3069
[mk-app] #3071 tr_bound%core!iter.traits.iterator.Iterator. #3063 #3064
[mk-app] #3072 sized #3063
[mk-app] #3073 and #3062 #3070 #3071 #3072
[mk-app] #3074 => #3060 #3073
[mk-app] #3075 pattern #3060
[mk-quant] #3076 internal_core__iter__traits__collect__IntoIterator_trait_type_bounds_definition 2 #3075 #3074
[attach-var-names] #3076 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3077 and #3062 #3066 #3069 #3071 #3072
[mk-app] #3078 not #3060
[mk-app] #3079 or #3078 #3077
[mk-app] #3080 => #3060 #3077
[inst-discovered] theory-solving 0x0 basic# ; #3080
[mk-app] #3081 = #3080 #3079
[instance] 0x0 #3081
[attach-enode] #3081 0
[end-of-instance]
[mk-quant] #3080 internal_core__iter__traits__collect__IntoIterator_trait_type_bounds_definition 2 #3075 #3079
[attach-var-names] #3080 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3081 tr_bound%core!iter.range.Step. #44 #45
[mk-app] #3082 tr_bound%core!cmp.PartialOrd. #44 #45 #44 #45
[mk-app] #3083 and #2967 #2992 #3082
[mk-app] #3084 => #3081 #3083
[mk-app] #3085 pattern #3081
[mk-quant] #3086 internal_core__iter__range__Step_trait_type_bounds_definition 2 #3085 #3084
[attach-var-names] #3086 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3087 not #3081
[mk-app] #3088 or #3087 #3083
[inst-discovered] theory-solving 0x0 basic# ; #3084
[mk-app] #3089 = #3084 #3088
[instance] 0x0 #3089
[attach-enode] #3089 0
[end-of-instance]
[mk-quant] #3089 internal_core__iter__range__Step_trait_type_bounds_definition 2 #3085 #3088
[attach-var-names] #3089 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3090 tr_bound%vstd!std_specs.iter.IteratorSpec. #44 #45
[mk-app] #3091 => #3090 #3051
[mk-app] #3092 pattern #3090
[mk-quant] #3093 internal_vstd__std_specs__iter__IteratorSpec_trait_type_bounds_definition 2 #3092 #3091
[attach-var-names] #3093 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3094 not #3090
[mk-app] #3095 or #3094 #3051
[inst-discovered] theory-solving 0x0 basic# ; #3091
[mk-app] #3096 = #3091 #3095
[instance] 0x0 #3096
[attach-enode] #3096 0
[end-of-instance]
[mk-quant] #3096 internal_vstd__std_specs__iter__IteratorSpec_trait_type_bounds_definition 2 #3092 #3095
[attach-var-names] #3096 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3097 tr_bound%vstd!std_specs.iter.StepSpec. #44 #45
[mk-app] #3098 and #2967 #2992 #3082 #3081
[mk-app] #3099 => #3097 #3098
[mk-app] #3100 pattern #3097
[mk-quant] #3101 internal_vstd__std_specs__iter__StepSpec_trait_type_bounds_definition 2 #3100 #3099
[attach-var-names] #3101 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3102 not #3097
[mk-app] #3103 or #3102 #3098
[inst-discovered] theory-solving 0x0 basic# ; #3099
[mk-app] #3104 = #3099 #3103
[instance] 0x0 #3104
[attach-enode] #3104 0
[end-of-instance]
[mk-quant] #3104 internal_vstd__std_specs__iter__StepSpec_trait_type_bounds_definition 2 #3100 #3103
[attach-var-names] #3104 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3105 tr_bound%vstd!std_specs.option.OptionAdditionalFns. #1249 #263 #44 #45
[mk-app] #3106 sized #1249
[mk-app] #3107 and #3106 #2967
[mk-app] #3108 => #3105 #3107
[mk-app] #3109 pattern #3105
[mk-quant] #3110 internal_vstd__std_specs__option__OptionAdditionalFns_trait_type_bounds_definition 4 #3109 #3108
[attach-var-names] #3110 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3111 not #3105
[mk-app] #3112 or #3111 #3107
[inst-discovered] theory-solving 0x0 basic# ; #3108
[mk-app] #3113 = #3108 #3112
[instance] 0x0 #3113
[attach-enode] #3113 0
[end-of-instance]
[mk-quant] #3113 internal_vstd__std_specs__option__OptionAdditionalFns_trait_type_bounds_definition 4 #3109 #3112
[attach-var-names] #3113 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3114 tr_bound%vstd!std_specs.result.ResultAdditionalSpecFns. #1248 #1229 #1249 #263 #44 #45
[mk-app] #3115 => #3114 #3107
[mk-app] #3116 pattern #3114
[mk-quant] #3117 internal_vstd__std_specs__result__ResultAdditionalSpecFns_trait_type_bounds_definition 6 #3116 #3115
[attach-var-names] #3117 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3118 not #3114
[mk-app] #3119 or #3118 #3107
[inst-discovered] theory-solving 0x0 basic# ; #3115
[mk-app] #3120 = #3115 #3119
[instance] 0x0 #3120
[attach-enode] #3120 0
[end-of-instance]
[mk-quant] #3120 internal_vstd__std_specs__result__ResultAdditionalSpecFns_trait_type_bounds_definition 6 #3116 #3119
[attach-var-names] #3120 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3121 tr_bound%u_tokenizer!text.StrShim. #44 #45
[mk-app] #3122 pattern #3121
[mk-quant] #3123 internal_u_tokenizer__text__StrShim_trait_type_bounds_definition 2 #3122 #1
[attach-var-names] #3123 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3124 tr_bound%u_tokenizer!text.Show. #44 #45
[mk-app] #3125 pattern #3124
[mk-quant] #3126 internal_u_tokenizer__text__Show_trait_type_bounds_definition 2 #3125 #1
[attach-var-names] #3126 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3127 tr_bound%u_tokenizer!lst.Length. #44 #45
[mk-app] #3128 pattern #3127
[mk-quant] #3129 internal_u_tokenizer__lst__Length_trait_type_bounds_definition 2 #3128 #1
[attach-var-names] #3129 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3130 tr_bound%u_tokenizer!lst.Emptiness. #44 #45
[mk-app] #3131 pattern #3130
[mk-quant] #3132 internal_u_tokenizer__lst__Emptiness_trait_type_bounds_definition 2 #3131 #1
[attach-var-names] #3132 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3133 tr_bound%u_tokenizer!lex.ClassShim. #44 #45
[mk-app] #3134 pattern #3133
[mk-quant] #3135 internal_u_tokenizer__lex__ClassShim_trait_type_bounds_definition 2 #3134 #1
[attach-var-names] #3135 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3136 tr_bound%u_tokenizer!lex.Pushed. #1249 #263 #44 #45
[mk-app] #3137 => #3136 #3107
[mk-app] #3138 pattern #3136
[mk-quant] #3139 internal_u_tokenizer__lex__Pushed_trait_type_bounds_definition 4 #3138 #3137
[attach-var-names] #3139 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3140 not #3136
[mk-app] #3141 or #3140 #3107
[inst-discovered] theory-solving 0x0 basic# ; #3137
[mk-app] #3142 = #3137 #3141
[instance] 0x0 #3142
[attach-enode] #3142 0
[end-of-instance]
[mk-quant] #3142 internal_u_tokenizer__lex__Pushed_trait_type_bounds_definition 4 #3138 #3141
[attach-var-names] #3142 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3143 const_int #45
[mk-app] #3144 uInv #269 #3143
[mk-app] #3145 and #3106 #3144
[mk-app] #3146 ARRAY #1249 #263 #44 #45
[mk-app] #3147 proj%%vstd!view.View./V #120 #3146
[mk-app] #3148 = #3147 #120
[mk-app] #3149 => #3145 #3148
[mk-app] #3150 pattern #3147
[mk-quant] #3151 internal_proj____vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_true_definition 4 #3150 #3149
[attach-var-names] #3151 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3152 not #3145
[mk-app] #3153 or #3152 #3148
[inst-discovered] theory-solving 0x0 basic# ; #3149
[mk-app] #3154 = #3149 #3153
[instance] 0x0 #3154
[attach-enode] #3154 0
[end-of-instance]
[mk-quant] #3154 internal_proj____vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_true_definition 4 #3150 #3153
[attach-var-names] #3154 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3155 proj%vstd!view.View./V #120 #3146
[mk-app] #3156 TYPE%vstd!seq.Seq. #1249 #263
[mk-app] #3157 = #3155 #3156
[mk-app] #3158 => #3145 #3157
[mk-app] #3159 pattern #3155
[mk-quant] #3160 internal_proj__vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_false_definition 4 #3159 #3158
[attach-var-names] #3160 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3161 or #3152 #3157
[inst-discovered] theory-solving 0x0 basic# ; #3158
[mk-app] #3162 = #3158 #3161
[instance] 0x0 #3162
[attach-enode] #3162 0
[end-of-instance]
[mk-quant] #3162 internal_proj__vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_false_definition 4 #3159 #3161
[attach-var-names] #3162 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3163 PTR #44 #45
[mk-app] #3164 proj%%vstd!view.View./V #120 #3163
[mk-app] #3165 = #3164 #120
[mk-app] #3166 pattern #3164
[mk-quant] #3167 internal_proj____vstd!view.View./V_vstd__raw_ptr__impl&__2_assoc_type_impl_true_definition 2 #3166 #3165
[attach-var-names] #3167 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3168 proj%vstd!view.View./V #120 #3163
[mk-app] #3169 TYPE%vstd!raw_ptr.PtrData. #44 #45
[mk-app] #3170 = #3168 #3169
[mk-app] #3171 pattern #3168
[mk-quant] #3172 internal_proj__vstd!view.View./V_vstd__raw_ptr__impl&__2_assoc_type_impl_false_definition 2 #3171 #3170
[attach-var-names] #3172 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3173 CONST_PTR #120
[mk-app] #3174 proj%%vstd!view.View./V #3173 #3163
[mk-app] #3175 = #3174 #120
[mk-app] #3176 pattern #3174
[mk-quant] #3177 internal_proj____vstd!view.View./V_vstd__raw_ptr__impl&__3_assoc_type_impl_true_definition 2 #3176 #3175
[attach-var-names] #3177 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3178 proj%vstd!view.View./V #3173 #3163
[mk-app] #3179 = #3178 #3169
[mk-app] #3180 pattern #3178
[mk-quant] #3181 internal_proj__vstd!view.View./V_vstd__raw_ptr__impl&__3_assoc_type_impl_false_definition 2 #3180 #3179
[attach-var-names] #3181 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3182 SLICE #44 #45
[mk-app] #3183 proj%%vstd!view.View./V #1198 #3182
[mk-app] #3184 = #3183 #120
[mk-app] #3185 => #2967 #3184
[mk-app] #3186 pattern #3183
[mk-quant] #3187 internal_proj____vstd!view.View./V_vstd__slice__impl&__0_assoc_type_impl_true_definition 2 #3186 #3185
[attach-var-names] #3187 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3188 not #2967
[mk-app] #3189 or #3188 #3184
[inst-discovered] theory-solving 0x0 basic# ; #3185
[mk-app] #3190 = #3185 #3189
[instance] 0x0 #3190
[attach-enode] #3190 0
[end-of-instance]
[mk-quant] #3190 internal_proj____vstd!view.View./V_vstd__slice__impl&__0_assoc_type_impl_true_definition 2 #3186 #3189
[attach-var-names] #3190 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3191 proj%vstd!view.View./V #1198 #3182
[mk-app] #3192 = #3191 #2963
[mk-app] #3193 => #2967 #3192
[mk-app] #3194 pattern #3191
[mk-quant] #3195 internal_proj__vstd!view.View./V_vstd__slice__impl&__0_assoc_type_impl_false_definition 2 #3194 #3193
[attach-var-names] #3195 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3196 or #3188 #3192
[inst-discovered] theory-solving 0x0 basic# ; #3193
[mk-app] #3197 = #3193 #3196
[instance] 0x0 #3197
[attach-enode] #3197 0
[end-of-instance]
[mk-quant] #3197 internal_proj__vstd!view.View./V_vstd__slice__impl&__0_assoc_type_impl_false_definition 2 #3194 #3196
[attach-var-names] #3197 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3198 proj%%vstd!view.View./V #1198 #1683
[mk-app] #3199 = #3198 #120
[mk-app] #3200 proj%vstd!view.View./V #1198 #1683
[mk-app] #3201 = #3200 #1463
[mk-app] #3202 proj%%vstd!view.View./V #120 #1341
[mk-app] #3203 = #3202 #120
[mk-app] #3204 proj%vstd!view.View./V #120 #1341
[mk-app] #3205 = #3204 #1463
[mk-app] #3206 REF #44
[mk-app] #3207 proj%%vstd!view.View./V #3206 #45
[mk-app] #3208 = #3207 #2984
[mk-app] #3209 => #2983 #3208
[mk-app] #3210 pattern #3207
[mk-quant] #3211 internal_proj____vstd!view.View./V_vstd__view__impl&__0_assoc_type_impl_true_definition 2 #3210 #3209
[attach-var-names] #3211 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3212 or #2989 #3208
[inst-discovered] theory-solving 0x0 basic# ; #3209
[mk-app] #3213 = #3209 #3212
[instance] 0x0 #3213
[attach-enode] #3213 0
[end-of-instance]
[mk-quant] #3213 internal_proj____vstd!view.View./V_vstd__view__impl&__0_assoc_type_impl_true_definition 2 #3210 #3212
[attach-var-names] #3213 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3214 proj%vstd!view.View./V #3206 #45
[mk-app] #3215 proj%vstd!view.View./V #44 #45
[mk-app] #3216 = #3214 #3215
[mk-app] #3217 => #2983 #3216
[mk-app] #3218 pattern #3214
[mk-quant] #3219 internal_proj__vstd!view.View./V_vstd__view__impl&__0_assoc_type_impl_false_definition 2 #3218 #3217
[attach-var-names] #3219 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3220 or #2989 #3216
[inst-discovered] theory-solving 0x0 basic# ; #3217
[mk-app] #3221 = #3217 #3220
[instance] 0x0 #3221
[attach-enode] #3221 0
[end-of-instance]
[mk-quant] #3221 internal_proj__vstd!view.View./V_vstd__view__impl&__0_assoc_type_impl_false_definition 2 #3218 #3220
[attach-var-names] #3221 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3222 BOX #120 #1321 #44
[mk-app] #3223 proj%%vstd!view.View./V #3222 #45
[mk-app] #3224 = #3223 #2984
[mk-app] #3225 => #2983 #3224
[mk-app] #3226 pattern #3223
[mk-quant] #3227 internal_proj____vstd!view.View./V_vstd__view__impl&__2_assoc_type_impl_true_definition 2 #3226 #3225
[attach-var-names] #3227 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3228 or #2989 #3224
[inst-discovered] theory-solving 0x0 basic# ; #3225
[mk-app] #3229 = #3225 #3228
[instance] 0x0 #3229
[attach-enode] #3229 0
[end-of-instance]
[mk-quant] #3229 internal_proj____vstd!view.View./V_vstd__view__impl&__2_assoc_type_impl_true_definition 2 #3226 #3228
[attach-var-names] #3229 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3230 proj%vstd!view.View./V #3222 #45
[mk-app] #3231 = #3230 #3215
[mk-app] #3232 => #2983 #3231
[mk-app] #3233 pattern #3230
[mk-quant] #3234 internal_proj__vstd!view.View./V_vstd__view__impl&__2_assoc_type_impl_false_definition 2 #3233 #3232
[attach-var-names] #3234 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3235 or #2989 #3231
[inst-discovered] theory-solving 0x0 basic# ; #3232
[mk-app] #3236 = #3232 #3235
[instance] 0x0 #3236
[attach-enode] #3236 0
[end-of-instance]
[mk-quant] #3236 internal_proj__vstd!view.View./V_vstd__view__impl&__2_assoc_type_impl_false_definition 2 #3233 #3235
[attach-var-names] #3236 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3237 and #2967 #2983
[mk-app] #3238 RC #120 #1321 #44
[mk-app] #3239 proj%%vstd!view.View./V #3238 #45
[mk-app] #3240 = #3239 #2984
[mk-app] #3241 => #3237 #3240
[mk-app] #3242 pattern #3239
[mk-quant] #3243 internal_proj____vstd!view.View./V_vstd__view__impl&__4_assoc_type_impl_true_definition 2 #3242 #3241
[attach-var-names] #3243 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3244 not #3237
[mk-app] #3245 or #3244 #3240
[inst-discovered] theory-solving 0x0 basic# ; #3241
[mk-app] #3246 = #3241 #3245
[instance] 0x0 #3246
[attach-enode] #3246 0
[end-of-instance]
[mk-quant] #3246 internal_proj____vstd!view.View./V_vstd__view__impl&__4_assoc_type_impl_true_definition 2 #3242 #3245
[attach-var-names] #3246 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3247 proj%vstd!view.View./V #3238 #45
[mk-app] #3248 = #3247 #3215
[mk-app] #3249 => #3237 #3248
[mk-app] #3250 pattern #3247
[mk-quant] #3251 internal_proj__vstd!view.View./V_vstd__view__impl&__4_assoc_type_impl_false_definition 2 #3250 #3249
[attach-var-names] #3251 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3252 or #3244 #3248
[inst-discovered] theory-solving 0x0 basic# ; #3249
[mk-app] #3253 = #3249 #3252
[instance] 0x0 #3253
[attach-enode] #3253 0
[end-of-instance]
[mk-quant] #3253 internal_proj__vstd!view.View./V_vstd__view__impl&__4_assoc_type_impl_false_definition 2 #3250 #3252
[attach-var-names] #3253 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3254 ARC #120 #1321 #44
[mk-app] #3255 proj%%vstd!view.View./V #3254 #45
[mk-app] #3256 = #3255 #2984
[mk-app] #3257 => #3237 #3256
[mk-app] #3258 pattern #3255
[mk-quant] #3259 internal_proj____vstd!view.View./V_vstd__view__impl&__6_assoc_type_impl_true_definition 2 #3258 #3257
[attach-var-names] #3259 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3260 or #3244 #3256
[inst-discovered] theory-solving 0x0 basic# ; #3257
[mk-app] #3261 = #3257 #3260
[instance] 0x0 #3261
[attach-enode] #3261 0
[end-of-instance]
[mk-quant] #3261 internal_proj____vstd!view.View./V_vstd__view__impl&__6_assoc_type_impl_true_definition 2 #3258 #3260
[attach-var-names] #3261 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3262 proj%vstd!view.View./V #3254 #45
[mk-app] #3263 = #3262 #3215
[mk-app] #3264 => #3237 #3263
[mk-app] #3265 pattern #3262
[mk-quant] #3266 internal_proj__vstd!view.View./V_vstd__view__impl&__6_assoc_type_impl_false_definition 2 #3265 #3264
[attach-var-names] #3266 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3267 or #3244 #3263
[inst-discovered] theory-solving 0x0 basic# ; #3264
[mk-app] #3268 = #3264 #3267
[instance] 0x0 #3268
[attach-enode] #3268 0
[end-of-instance]
[mk-quant] #3268 internal_proj__vstd!view.View./V_vstd__view__impl&__6_assoc_type_impl_false_definition 2 #3265 #3267
[attach-var-names] #3268 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3269 and #3106 #2967 #3045
[mk-app] #3270 TYPE%alloc!vec.Vec. #1249 #263 #44 #45
[mk-app] #3271 proj%%vstd!view.View./V #120 #3270
[mk-app] #3272 = #3271 #120
[mk-app] #3273 => #3269 #3272
[mk-app] #3274 pattern #3271
[mk-quant] #3275 internal_proj____vstd!view.View./V_vstd__view__impl&__8_assoc_type_impl_true_definition 4 #3274 #3273
[attach-var-names] #3275 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3276 not #3269
[mk-app] #3277 or #3276 #3272
[inst-discovered] theory-solving 0x0 basic# ; #3273
[mk-app] #3278 = #3273 #3277
[instance] 0x0 #3278
[attach-enode] #3278 0
[end-of-instance]
[mk-quant] #3278 internal_proj____vstd!view.View./V_vstd__view__impl&__8_assoc_type_impl_true_definition 4 #3274 #3277
[attach-var-names] #3278 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3279 proj%vstd!view.View./V #120 #3270
[mk-app] #3280 = #3279 #3156
[mk-app] #3281 => #3269 #3280
[mk-app] #3282 pattern #3279
[mk-quant] #3283 internal_proj__vstd!view.View./V_vstd__view__impl&__8_assoc_type_impl_false_definition 4 #3282 #3281
[attach-var-names] #3283 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3284 or #3276 #3280
[inst-discovered] theory-solving 0x0 basic# ; #3281
[mk-app] #3285 = #3281 #3284
[instance] 0x0 #3285
[attach-enode] #3285 0
[end-of-instance]
[mk-quant] #3285 internal_proj__vstd!view.View./V_vstd__view__impl&__8_assoc_type_impl_false_definition 4 #3282 #3284
[attach-var-names] #3285 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3286 proj%%vstd!view.View./V #120 #1716
[mk-app] #3287 = #3286 #120
[mk-app] #3288 => #2967 #3287
[mk-app] #3289 pattern #3286
[mk-quant] #3290 internal_proj____vstd!view.View./V_vstd__view__impl&__14_assoc_type_impl_true_definition 2 #3289 #3288
[attach-var-names] #3290 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3291 or #3188 #3287
[inst-discovered] theory-solving 0x0 basic# ; #3288
[mk-app] #3292 = #3288 #3291
[instance] 0x0 #3292
[attach-enode] #3292 0
[end-of-instance]
[mk-quant] #3292 internal_proj____vstd!view.View./V_vstd__view__impl&__14_assoc_type_impl_true_definition 2 #3289 #3291
[attach-var-names] #3292 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3293 proj%vstd!view.View./V #120 #1716
[mk-app] #3294 = #3293 #1716
[mk-app] #3295 => #2967 #3294
[mk-app] #3296 pattern #3293
[mk-quant] #3297 internal_proj__vstd!view.View./V_vstd__view__impl&__14_assoc_type_impl_false_definition 2 #3296 #3295
[attach-var-names] #3297 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3298 or #3188 #3294
[inst-discovered] theory-solving 0x0 basic# ; #3295
[mk-app] #3299 = #3295 #3298
[instance] 0x0 #3299
[attach-enode] #3299 0
[end-of-instance]
[mk-quant] #3299 internal_proj__vstd!view.View./V_vstd__view__impl&__14_assoc_type_impl_false_definition 2 #3296 #3298
[attach-var-names] #3299 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3300 proj%%vstd!view.View./V #120 #1184
[mk-app] #3301 = #3300 #120
[mk-app] #3302 proj%vstd!view.View./V #120 #1184
[mk-app] #3303 = #3302 #1184
[mk-app] #3304 proj%%vstd!view.View./V #120 #135
[mk-app] #3305 = #3304 #120
[mk-app] #3306 proj%vstd!view.View./V #120 #135
[mk-app] #3307 = #3306 #135
[mk-app] #3308 UINT #272
[mk-app] #3309 proj%%vstd!view.View./V #120 #3308
[mk-app] #3310 = #3309 #120
[mk-app] #3311 proj%vstd!view.View./V #120 #3308
[mk-app] #3312 = #3311 #3308
[attach-meaning] #280 arith 32
[mk-app] #3313 UINT #280
[mk-app] #3314 proj%%vstd!view.View./V #120 #3313
[mk-app] #3315 = #3314 #120
[attach-meaning] #280 arith 32
[mk-app] #3316 proj%vstd!view.View./V #120 #3313
[attach-meaning] #280 arith 32
[mk-app] #3317 = #3316 #3313
[mk-app] #3318 proj%%vstd!view.View./V #120 #203
[mk-app] #3319 = #3318 #120
[mk-app] #3320 proj%vstd!view.View./V #120 #203
[mk-app] #3321 = #3320 #203
[mk-app] #3322 proj%%vstd!view.View./V #120 #211
[mk-app] #3323 = #3322 #120
[mk-app] #3324 proj%vstd!view.View./V #120 #211
[mk-app] #3325 = #3324 #211
[mk-app] #3326 proj%%vstd!view.View./V #120 #244
[mk-app] #3327 = #3326 #120
[mk-app] #3328 proj%vstd!view.View./V #120 #244
[mk-app] #3329 = #3328 #244
[mk-app] #3330 DST #44
[mk-app] #3331 TYPE%tuple%1. #44 #45
[mk-app] #3332 proj%%vstd!view.View./V #3330 #3331
[mk-app] #3333 DST #2984
[mk-app] #3334 = #3332 #3333
[mk-app] #3335 => #3237 #3334
[mk-app] #3336 pattern #3332
[mk-quant] #3337 internal_proj____vstd!view.View./V_vstd__view__impl&__46_assoc_type_impl_true_definition 2 #3336 #3335
[attach-var-names] #3337 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3338 or #3244 #3334
[inst-discovered] theory-solving 0x0 basic# ; #3335
[mk-app] #3339 = #3335 #3338
[instance] 0x0 #3339
[attach-enode] #3339 0
[end-of-instance]
[mk-quant] #3339 internal_proj____vstd!view.View./V_vstd__view__impl&__46_assoc_type_impl_true_definition 2 #3336 #3338
[attach-var-names] #3339 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3340 proj%vstd!view.View./V #3330 #3331
[mk-app] #3341 TYPE%tuple%1. #2984 #3215
[mk-app] #3342 = #3340 #3341
[mk-app] #3343 => #3237 #3342
[mk-app] #3344 pattern #3340
[mk-quant] #3345 internal_proj__vstd!view.View./V_vstd__view__impl&__46_assoc_type_impl_false_definition 2 #3344 #3343
[attach-var-names] #3345 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3346 or #3244 #3342
[inst-discovered] theory-solving 0x0 basic# ; #3343
[mk-app] #3347 = #3343 #3346
[instance] 0x0 #3347
[attach-enode] #3347 0
[end-of-instance]
[mk-quant] #3347 internal_proj__vstd!view.View./V_vstd__view__impl&__46_assoc_type_impl_false_definition 2 #3344 #3346
[attach-var-names] #3347 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3348 and #3106 #2967 #2960 #2983
[mk-app] #3349 TYPE%tuple%2. #1249 #263 #44 #45
[mk-app] #3350 proj%%vstd!view.View./V #3330 #3349
[mk-app] #3351 = #3350 #3333
[mk-app] #3352 => #3348 #3351
[mk-app] #3353 pattern #3350
[mk-quant] #3354 internal_proj____vstd!view.View./V_vstd__view__impl&__48_assoc_type_impl_true_definition 4 #3353 #3352
[attach-var-names] #3354 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3355 not #3348
[mk-app] #3356 or #3355 #3351
[inst-discovered] theory-solving 0x0 basic# ; #3352
[mk-app] #3357 = #3352 #3356
[instance] 0x0 #3357
[attach-enode] #3357 0
[end-of-instance]
[mk-quant] #3357 internal_proj____vstd!view.View./V_vstd__view__impl&__48_assoc_type_impl_true_definition 4 #3353 #3356
[attach-var-names] #3357 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3358 proj%vstd!view.View./V #3330 #3349
[mk-app] #3359 TYPE%tuple%2. #2961 #2964 #2984 #3215
[mk-app] #3360 = #3358 #3359
[mk-app] #3361 => #3348 #3360
[mk-app] #3362 pattern #3358
[mk-quant] #3363 internal_proj__vstd!view.View./V_vstd__view__impl&__48_assoc_type_impl_false_definition 4 #3362 #3361
[attach-var-names] #3363 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3364 or #3355 #3360
[inst-discovered] theory-solving 0x0 basic# ; #3361
[mk-app] #3365 = #3361 #3364
[instance] 0x0 #3365
[attach-enode] #3365 0
[end-of-instance]
[mk-quant] #3365 internal_proj__vstd!view.View./V_vstd__view__impl&__48_assoc_type_impl_false_definition 4 #3362 #3364
[attach-var-names] #3365 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #3366 tr_bound%core!marker.Tuple. #1249 #263
[mk-app] #3367 tr_bound%core!ops.function.Fn. #44 #45 #1249 #263
[mk-app] #3368 and #3106 #3366 #3367
[mk-app] #3369 proj%%core!ops.function.FnOnce./Output #3206 #45 #1249 #263
[mk-app] #3370 proj%%core!ops.function.FnOnce./Output #44 #45 #1249 #263
[mk-app] #3371 = #3369 #3370
[mk-app] #3372 => #3368 #3371
[mk-app] #3373 pattern #3369
[mk-quant] #3374 internal_proj____core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__2_assoc_type_impl_true_definition 4 #3373 #3372
[attach-var-names] #3374 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3375 not #3368
[mk-app] #3376 or #3375 #3371
[inst-discovered] theory-solving 0x0 basic# ; #3372
[mk-app] #3377 = #3372 #3376
[instance] 0x0 #3377
[attach-enode] #3377 0
[end-of-instance]
[mk-quant] #3377 internal_proj____core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__2_assoc_type_impl_true_definition 4 #3373 #3376
[attach-var-names] #3377 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3378 proj%core!ops.function.FnOnce./Output #3206 #45 #1249 #263
[mk-app] #3379 proj%core!ops.function.FnOnce./Output #44 #45 #1249 #263
[mk-app] #3380 = #3378 #3379
[mk-app] #3381 => #3368 #3380
[mk-app] #3382 pattern #3378
[mk-quant] #3383 internal_proj__core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__2_assoc_type_impl_false_definition 4 #3382 #3381
[attach-var-names] #3383 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3384 or #3375 #3380
[inst-discovered] theory-solving 0x0 basic# ; #3381
[mk-app] #3385 = #3381 #3384
[instance] 0x0 #3385
[attach-enode] #3385 0
[end-of-instance]
[mk-quant] #3385 internal_proj__core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__2_assoc_type_impl_false_definition 4 #3382 #3384
[attach-var-names] #3385 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3386 tr_bound%core!ops.function.FnMut. #44 #45 #1249 #263
[mk-app] #3387 and #3106 #3366 #3386
[mk-app] #3388 proj%%core!ops.function.FnOnce./Output #120 #46 #1249 #263
[mk-app] #3389 = #3388 #3370
[mk-app] #3390 => #3387 #3389
[mk-app] #3391 pattern #3388
[mk-quant] #3392 internal_proj____core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__4_assoc_type_impl_true_definition 4 #3391 #3390
[attach-var-names] #3392 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3393 not #3387
[mk-app] #3394 or #3393 #3389
[inst-discovered] theory-solving 0x0 basic# ; #3390
[mk-app] #3395 = #3390 #3394
[instance] 0x0 #3395
[attach-enode] #3395 0
[end-of-instance]
[mk-quant] #3395 internal_proj____core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__4_assoc_type_impl_true_definition 4 #3391 #3394
[attach-var-names] #3395 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3396 proj%core!ops.function.FnOnce./Output #120 #46 #1249 #263
[mk-app] #3397 = #3396 #3379
[mk-app] #3398 => #3387 #3397
[mk-app] #3399 pattern #3396
[mk-quant] #3400 internal_proj__core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__4_assoc_type_impl_false_definition 4 #3399 #3398
[attach-var-names] #3400 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3401 or #3393 #3397
[inst-discovered] theory-solving 0x0 basic# ; #3398
[mk-app] #3402 = #3398 #3401
[instance] 0x0 #3402
[attach-enode] #3402 0
[end-of-instance]
[mk-quant] #3402 internal_proj__core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__4_assoc_type_impl_false_definition 4 #3399 #3401
[attach-var-names] #3402 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3403 sized #1248
[mk-app] #3404 tr_bound%core!marker.Tuple. #1248 #1229
[mk-app] #3405 tr_bound%core!ops.function.FnOnce. #1249 #263 #1248 #1229
[mk-app] #3406 and #3403 #2967 #3404 #3405 #3045
[mk-app] #3407 BOX #44 #45 #1249
[mk-app] #3408 proj%%core!ops.function.FnOnce./Output #3407 #263 #1248 #1229
[mk-app] #3409 proj%%core!ops.function.FnOnce./Output #1249 #263 #1248 #1229
[mk-app] #3410 = #3408 #3409
[mk-app] #3411 => #3406 #3410
[mk-app] #3412 pattern #3408
[mk-quant] #3413 internal_proj____core!ops.function.FnOnce./Output_alloc__boxed__impl&__31_assoc_type_impl_true_definition 6 #3412 #3411
[attach-var-names] #3413 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #3414 not #3406
[mk-app] #3415 or #3414 #3410
[inst-discovered] theory-solving 0x0 basic# ; #3411
[mk-app] #3416 = #3411 #3415
[instance] 0x0 #3416
[attach-enode] #3416 0
[end-of-instance]
[mk-quant] #3416 internal_proj____core!ops.function.FnOnce./Output_alloc__boxed__impl&__31_assoc_type_impl_true_definition 6 #3412 #3415
[attach-var-names] #3416 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #3417 proj%core!ops.function.FnOnce./Output #3407 #263 #1248 #1229
[mk-app] #3418 proj%core!ops.function.FnOnce./Output #1249 #263 #1248 #1229
[mk-app] #3419 = #3417 #3418
[mk-app] #3420 => #3406 #3419
[mk-app] #3421 pattern #3417
[mk-quant] #3422 internal_proj__core!ops.function.FnOnce./Output_alloc__boxed__impl&__31_assoc_type_impl_false_definition 6 #3421 #3420
[attach-var-names] #3422 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #3423 or #3414 #3419
[inst-discovered] theory-solving 0x0 basic# ; #3420
[mk-app] #3424 = #3420 #3423
[instance] 0x0 #3424
[attach-enode] #3424 0
[end-of-instance]
[mk-quant] #3424 internal_proj__core!ops.function.FnOnce./Output_alloc__boxed__impl&__31_assoc_type_impl_false_definition 6 #3421 #3423
[attach-var-names] #3424 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #3425 and #2967 #3051
[mk-app] #3426 = #3061 #3052
[mk-app] #3427 => #3425 #3426
[mk-app] #3428 pattern #3061
[mk-quant] #3429 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__iter__traits__collect__impl&__0_assoc_type_impl_true_definition 2 #3428 #3427
[attach-var-names] #3429 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3430 not #3425
[mk-app] #3431 or #3430 #3426
[inst-discovered] theory-solving 0x0 basic# ; #3427
[mk-app] #3432 = #3427 #3431
[instance] 0x0 #3432
[attach-enode] #3432 0
[end-of-instance]
[mk-quant] #3432 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__iter__traits__collect__impl&__0_assoc_type_impl_true_definition 2 #3428 #3431
[attach-var-names] #3432 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3433 proj%core!iter.traits.iterator.Iterator./Item #44 #45
[mk-app] #3434 = #3067 #3433
[mk-app] #3435 => #3425 #3434
[mk-app] #3436 pattern #3067
[mk-quant] #3437 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__iter__traits__collect__impl&__0_assoc_type_impl_false_definition 2 #3436 #3435
[attach-var-names] #3437 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3438 or #3430 #3434
[inst-discovered] theory-solving 0x0 basic# ; #3435
[mk-app] #3439 = #3435 #3438
[instance] 0x0 #3439
[attach-enode] #3439 0
[end-of-instance]
[mk-quant] #3439 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__iter__traits__collect__impl&__0_assoc_type_impl_false_definition 2 #3436 #3438
[attach-var-names] #3439 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3440 = #3063 #44
[mk-app] #3441 => #3425 #3440
[mk-app] #3442 pattern #3063
[mk-quant] #3443 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__iter__traits__collect__impl&__0_assoc_type_impl_true_definition 2 #3442 #3441
[attach-var-names] #3443 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3444 or #3430 #3440
[inst-discovered] theory-solving 0x0 basic# ; #3441
[mk-app] #3445 = #3441 #3444
[instance] 0x0 #3445
[attach-enode] #3445 0
[end-of-instance]
[mk-quant] #3445 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__iter__traits__collect__impl&__0_assoc_type_impl_true_definition 2 #3442 #3444
[attach-var-names] #3445 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3446 = #3064 #45
[mk-app] #3447 => #3425 #3446
[mk-app] #3448 pattern #3064
[mk-quant] #3449 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__iter__traits__collect__impl&__0_assoc_type_impl_false_definition 2 #3448 #3447
[attach-var-names] #3449 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3450 or #3430 #3446
[inst-discovered] theory-solving 0x0 basic# ; #3447
[mk-app] #3451 = #3447 #3450
[instance] 0x0 #3451
[attach-enode] #3451 0
[end-of-instance]
[mk-quant] #3451 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__iter__traits__collect__impl&__0_assoc_type_impl_false_definition 2 #3448 #3450
[attach-var-names] #3451 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3452 REF #120
[mk-app] #3453 proj%%core!iter.traits.collect.IntoIterator./Item #3452 #3146
[mk-app] #3454 REF #1249
[mk-app] #3455 = #3453 #3454
[mk-app] #3456 => #3145 #3455
[mk-app] #3457 pattern #3453
[mk-quant] #3458 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_true_definition 4 #3457 #3456
[attach-var-names] #3458 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3459 or #3152 #3455
[inst-discovered] theory-solving 0x0 basic# ; #3456
[mk-app] #3460 = #3456 #3459
[instance] 0x0 #3460
[attach-enode] #3460 0
[end-of-instance]
[mk-quant] #3460 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_true_definition 4 #3457 #3459
[attach-var-names] #3460 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3461 proj%core!iter.traits.collect.IntoIterator./Item #3452 #3146
[mk-app] #3462 = #3461 #263
[mk-app] #3463 => #3145 #3462
[mk-app] #3464 pattern #3461
[mk-quant] #3465 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_false_definition 4 #3464 #3463
[attach-var-names] #3465 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3466 or #3152 #3462
[inst-discovered] theory-solving 0x0 basic# ; #3463
[mk-app] #3467 = #3463 #3466
[instance] 0x0 #3467
[attach-enode] #3467 0
[end-of-instance]
[mk-quant] #3467 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_false_definition 4 #3464 #3466
[attach-var-names] #3467 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3468 proj%%core!iter.traits.collect.IntoIterator./IntoIter #3452 #3146
[mk-app] #3469 = #3468 #120
[mk-app] #3470 => #3145 #3469
[mk-app] #3471 pattern #3468
[mk-quant] #3472 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_true_definition 4 #3471 #3470
[attach-var-names] #3472 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3473 or #3152 #3469
[inst-discovered] theory-solving 0x0 basic# ; #3470
[mk-app] #3474 = #3470 #3473
[instance] 0x0 #3474
[attach-enode] #3474 0
[end-of-instance]
[mk-quant] #3474 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_true_definition 4 #3471 #3473
[attach-var-names] #3474 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3475 proj%core!iter.traits.collect.IntoIterator./IntoIter #3452 #3146
[mk-app] #3476 TYPE%core!slice.iter.Iter. #1249 #263
[mk-app] #3477 = #3475 #3476
[mk-app] #3478 => #3145 #3477
[mk-app] #3479 pattern #3475
[mk-quant] #3480 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_false_definition 4 #3479 #3478
[attach-var-names] #3480 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3481 or #3152 #3477
[inst-discovered] theory-solving 0x0 basic# ; #3478
[mk-app] #3482 = #3478 #3481
[instance] 0x0 #3482
[attach-enode] #3482 0
[end-of-instance]
[mk-quant] #3482 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_false_definition 4 #3479 #3481
[attach-var-names] #3482 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3483 REF #1198
[mk-app] #3484 proj%%core!iter.traits.collect.IntoIterator./Item #3483 #3182
[mk-app] #3485 = #3484 #3206
[mk-app] #3486 => #2967 #3485
[mk-app] #3487 pattern #3484
[mk-quant] #3488 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__1_assoc_type_impl_true_definition 2 #3487 #3486
[attach-var-names] #3488 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3489 or #3188 #3485
[inst-discovered] theory-solving 0x0 basic# ; #3486
[mk-app] #3490 = #3486 #3489
[instance] 0x0 #3490
[attach-enode] #3490 0
[end-of-instance]
[mk-quant] #3490 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__1_assoc_type_impl_true_definition 2 #3487 #3489
[attach-var-names] #3490 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3491 proj%core!iter.traits.collect.IntoIterator./Item #3483 #3182
[mk-app] #3492 = #3491 #45
[mk-app] #3493 => #2967 #3492
[mk-app] #3494 pattern #3491
[mk-quant] #3495 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__1_assoc_type_impl_false_definition 2 #3494 #3493
[attach-var-names] #3495 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3496 or #3188 #3492
[inst-discovered] theory-solving 0x0 basic# ; #3493
[mk-app] #3497 = #3493 #3496
[instance] 0x0 #3497
[attach-enode] #3497 0
[end-of-instance]
[mk-quant] #3497 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__1_assoc_type_impl_false_definition 2 #3494 #3496
[attach-var-names] #3497 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3498 proj%%core!iter.traits.collect.IntoIterator./IntoIter #3483 #3182
[mk-app] #3499 = #3498 #120
[mk-app] #3500 => #2967 #3499
[mk-app] #3501 pattern #3498
[mk-quant] #3502 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__1_assoc_type_impl_true_definition 2 #3501 #3500
[attach-var-names] #3502 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3503 or #3188 #3499
[inst-discovered] theory-solving 0x0 basic# ; #3500
[mk-app] #3504 = #3500 #3503
[instance] 0x0 #3504
[attach-enode] #3504 0
[end-of-instance]
[mk-quant] #3504 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__1_assoc_type_impl_true_definition 2 #3501 #3503
[attach-var-names] #3504 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3505 proj%core!iter.traits.collect.IntoIterator./IntoIter #3483 #3182
[mk-app] #3506 TYPE%core!slice.iter.Iter. #44 #45
[mk-app] #3507 = #3505 #3506
[mk-app] #3508 => #2967 #3507
[mk-app] #3509 pattern #3505
[mk-quant] #3510 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__1_assoc_type_impl_false_definition 2 #3509 #3508
[attach-var-names] #3510 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3511 or #3188 #3507
[inst-discovered] theory-solving 0x0 basic# ; #3508
[mk-app] #3512 = #3508 #3511
[instance] 0x0 #3512
[attach-enode] #3512 0
[end-of-instance]
[mk-quant] #3512 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__1_assoc_type_impl_false_definition 2 #3509 #3511
[attach-var-names] #3512 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3513 BOX #44 #45 #1198
[mk-app] #3514 REF #3513
[mk-app] #3515 SLICE #1249 #263
[mk-app] #3516 proj%%core!iter.traits.collect.IntoIterator./IntoIter #3514 #3515
[mk-app] #3517 = #3516 #120
[mk-app] #3518 => #3269 #3517
[mk-app] #3519 pattern #3516
[mk-quant] #3520 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__11_assoc_type_impl_true_definition 4 #3519 #3518
[attach-var-names] #3520 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3521 or #3276 #3517
[inst-discovered] theory-solving 0x0 basic# ; #3518
[mk-app] #3522 = #3518 #3521
[instance] 0x0 #3522
[attach-enode] #3522 0
[end-of-instance]
[mk-quant] #3522 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__11_assoc_type_impl_true_definition 4 #3519 #3521
[attach-var-names] #3522 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3523 proj%core!iter.traits.collect.IntoIterator./IntoIter #3514 #3515
[mk-app] #3524 = #3523 #3476
[mk-app] #3525 => #3269 #3524
[mk-app] #3526 pattern #3523
[mk-quant] #3527 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__11_assoc_type_impl_false_definition 4 #3526 #3525
[attach-var-names] #3527 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3528 or #3276 #3524
[inst-discovered] theory-solving 0x0 basic# ; #3525
[mk-app] #3529 = #3525 #3528
[instance] 0x0 #3529
[attach-enode] #3529 0
[end-of-instance]
[mk-quant] #3529 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__11_assoc_type_impl_false_definition 4 #3526 #3528
[attach-var-names] #3529 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3530 proj%%core!iter.traits.collect.IntoIterator./Item #3514 #3515
[mk-app] #3531 = #3530 #3454
[mk-app] #3532 => #3269 #3531
[mk-app] #3533 pattern #3530
[mk-quant] #3534 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__11_assoc_type_impl_true_definition 4 #3533 #3532
[attach-var-names] #3534 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3535 or #3276 #3531
[inst-discovered] theory-solving 0x0 basic# ; #3532
[mk-app] #3536 = #3532 #3535
[instance] 0x0 #3536
[attach-enode] #3536 0
[end-of-instance]
[mk-quant] #3536 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__11_assoc_type_impl_true_definition 4 #3533 #3535
[attach-var-names] #3536 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3537 proj%core!iter.traits.collect.IntoIterator./Item #3514 #3515
[mk-app] #3538 = #3537 #263
[mk-app] #3539 => #3269 #3538
[mk-app] #3540 pattern #3537
[mk-quant] #3541 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__11_assoc_type_impl_false_definition 4 #3540 #3539
[attach-var-names] #3541 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3542 or #3276 #3538
[inst-discovered] theory-solving 0x0 basic# ; #3539
[mk-app] #3543 = #3539 #3542
[instance] 0x0 #3543
[attach-enode] #3543 0
[end-of-instance]
[mk-quant] #3543 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__11_assoc_type_impl_false_definition 4 #3540 #3542
[attach-var-names] #3543 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3544 proj%%core!iter.traits.collect.IntoIterator./Item #3452 #3270
[mk-app] #3545 = #3544 #3454
[mk-app] #3546 => #3269 #3545
[mk-app] #3547 pattern #3544
[mk-quant] #3548 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__18_assoc_type_impl_true_definition 4 #3547 #3546
[attach-var-names] #3548 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3549 or #3276 #3545
[inst-discovered] theory-solving 0x0 basic# ; #3546
[mk-app] #3550 = #3546 #3549
[instance] 0x0 #3550
[attach-enode] #3550 0
[end-of-instance]
[mk-quant] #3550 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__18_assoc_type_impl_true_definition 4 #3547 #3549
[attach-var-names] #3550 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3551 proj%core!iter.traits.collect.IntoIterator./Item #3452 #3270
[mk-app] #3552 = #3551 #263
[mk-app] #3553 => #3269 #3552
[mk-app] #3554 pattern #3551
[mk-quant] #3555 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__18_assoc_type_impl_false_definition 4 #3554 #3553
[attach-var-names] #3555 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3556 or #3276 #3552
[inst-discovered] theory-solving 0x0 basic# ; #3553
[mk-app] #3557 = #3553 #3556
[instance] 0x0 #3557
[attach-enode] #3557 0
[end-of-instance]
[mk-quant] #3557 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__18_assoc_type_impl_false_definition 4 #3554 #3556
[attach-var-names] #3557 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3558 proj%%core!iter.traits.collect.IntoIterator./IntoIter #3452 #3270
[mk-app] #3559 = #3558 #120
[mk-app] #3560 => #3269 #3559
[mk-app] #3561 pattern #3558
[mk-quant] #3562 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__18_assoc_type_impl_true_definition 4 #3561 #3560
[attach-var-names] #3562 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3563 or #3276 #3559
[inst-discovered] theory-solving 0x0 basic# ; #3560
[mk-app] #3564 = #3560 #3563
[instance] 0x0 #3564
[attach-enode] #3564 0
[end-of-instance]
[mk-quant] #3564 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__18_assoc_type_impl_true_definition 4 #3561 #3563
[attach-var-names] #3564 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3565 proj%core!iter.traits.collect.IntoIterator./IntoIter #3452 #3270
[mk-app] #3566 = #3565 #3476
[mk-app] #3567 => #3269 #3566
[mk-app] #3568 pattern #3565
[mk-quant] #3569 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__18_assoc_type_impl_false_definition 4 #3568 #3567
[attach-var-names] #3569 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3570 or #3276 #3566
[inst-discovered] theory-solving 0x0 basic# ; #3567
[mk-app] #3571 = #3567 #3570
[instance] 0x0 #3571
[attach-enode] #3571 0
[end-of-instance]
[mk-quant] #3571 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__18_assoc_type_impl_false_definition 4 #3568 #3570
[attach-var-names] #3571 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3572 MUTREF #120 #3146
[mk-app] #3573 proj%%core!iter.traits.collect.IntoIterator./Item #120 #3572
[mk-app] #3574 = #3573 #120
[mk-app] #3575 => #3145 #3574
[mk-app] #3576 pattern #3573
[mk-quant] #3577 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_true_definition 4 #3576 #3575
[attach-var-names] #3577 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3578 or #3152 #3574
[inst-discovered] theory-solving 0x0 basic# ; #3575
[mk-app] #3579 = #3575 #3578
[instance] 0x0 #3579
[attach-enode] #3579 0
[end-of-instance]
[mk-quant] #3579 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_true_definition 4 #3576 #3578
[attach-var-names] #3579 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3580 proj%core!iter.traits.collect.IntoIterator./Item #120 #3572
[mk-app] #3581 MUTREF #1249 #263
[mk-app] #3582 = #3580 #3581
[mk-app] #3583 => #3145 #3582
[mk-app] #3584 pattern #3580
[mk-quant] #3585 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_false_definition 4 #3584 #3583
[attach-var-names] #3585 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3586 or #3152 #3582
[inst-discovered] theory-solving 0x0 basic# ; #3583
[mk-app] #3587 = #3583 #3586
[instance] 0x0 #3587
[attach-enode] #3587 0
[end-of-instance]
[mk-quant] #3587 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_false_definition 4 #3584 #3586
[attach-var-names] #3587 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3588 proj%%core!iter.traits.collect.IntoIterator./IntoIter #120 #3572
[mk-app] #3589 = #3588 #120
[mk-app] #3590 => #3145 #3589
[mk-app] #3591 pattern #3588
[mk-quant] #3592 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_true_definition 4 #3591 #3590
[attach-var-names] #3592 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3593 or #3152 #3589
[inst-discovered] theory-solving 0x0 basic# ; #3590
[mk-app] #3594 = #3590 #3593
[instance] 0x0 #3594
[attach-enode] #3594 0
[end-of-instance]
[mk-quant] #3594 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_true_definition 4 #3591 #3593
[attach-var-names] #3594 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3595 proj%core!iter.traits.collect.IntoIterator./IntoIter #120 #3572
[mk-app] #3596 TYPE%core!slice.iter.IterMut. #1249 #263
[mk-app] #3597 = #3595 #3596
[mk-app] #3598 => #3145 #3597
[mk-app] #3599 pattern #3595
[mk-quant] #3600 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_false_definition 4 #3599 #3598
[attach-var-names] #3600 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3601 or #3152 #3597
[inst-discovered] theory-solving 0x0 basic# ; #3598
[mk-app] #3602 = #3598 #3601
[instance] 0x0 #3602
[attach-enode] #3602 0
[end-of-instance]
[mk-quant] #3602 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_false_definition 4 #3599 #3601
[attach-var-names] #3602 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3603 MUTREF #1198 #3182
[mk-app] #3604 proj%%core!iter.traits.collect.IntoIterator./Item #120 #3603
[mk-app] #3605 = #3604 #120
[mk-app] #3606 => #2967 #3605
[mk-app] #3607 pattern #3604
[mk-quant] #3608 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__2_assoc_type_impl_true_definition 2 #3607 #3606
[attach-var-names] #3608 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3609 or #3188 #3605
[inst-discovered] theory-solving 0x0 basic# ; #3606
[mk-app] #3610 = #3606 #3609
[instance] 0x0 #3610
[attach-enode] #3610 0
[end-of-instance]
[mk-quant] #3610 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__2_assoc_type_impl_true_definition 2 #3607 #3609
[attach-var-names] #3610 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3611 proj%core!iter.traits.collect.IntoIterator./Item #120 #3603
[mk-app] #3612 = #3611 #46
[mk-app] #3613 => #2967 #3612
[mk-app] #3614 pattern #3611
[mk-quant] #3615 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__2_assoc_type_impl_false_definition 2 #3614 #3613
[attach-var-names] #3615 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3616 or #3188 #3612
[inst-discovered] theory-solving 0x0 basic# ; #3613
[mk-app] #3617 = #3613 #3616
[instance] 0x0 #3617
[attach-enode] #3617 0
[end-of-instance]
[mk-quant] #3617 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__slice__iter__impl&__2_assoc_type_impl_false_definition 2 #3614 #3616
[attach-var-names] #3617 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3618 proj%%core!iter.traits.collect.IntoIterator./IntoIter #120 #3603
[mk-app] #3619 = #3618 #120
[mk-app] #3620 => #2967 #3619
[mk-app] #3621 pattern #3618
[mk-quant] #3622 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__2_assoc_type_impl_true_definition 2 #3621 #3620
[attach-var-names] #3622 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3623 or #3188 #3619
[inst-discovered] theory-solving 0x0 basic# ; #3620
[mk-app] #3624 = #3620 #3623
[instance] 0x0 #3624
[attach-enode] #3624 0
[end-of-instance]
[mk-quant] #3624 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__2_assoc_type_impl_true_definition 2 #3621 #3623
[attach-var-names] #3624 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3625 proj%core!iter.traits.collect.IntoIterator./IntoIter #120 #3603
[mk-app] #3626 TYPE%core!slice.iter.IterMut. #44 #45
[mk-app] #3627 = #3625 #3626
[mk-app] #3628 => #2967 #3627
[mk-app] #3629 pattern #3625
[mk-quant] #3630 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__2_assoc_type_impl_false_definition 2 #3629 #3628
[attach-var-names] #3630 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3631 or #3188 #3627
[inst-discovered] theory-solving 0x0 basic# ; #3628
[mk-app] #3632 = #3628 #3631
[instance] 0x0 #3632
[attach-enode] #3632 0
[end-of-instance]
[mk-quant] #3632 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__slice__iter__impl&__2_assoc_type_impl_false_definition 2 #3629 #3631
[attach-var-names] #3632 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3633 MUTREF #3513 #3515
[mk-app] #3634 proj%%core!iter.traits.collect.IntoIterator./IntoIter #120 #3633
[mk-app] #3635 = #3634 #120
[mk-app] #3636 => #3269 #3635
[mk-app] #3637 pattern #3634
[mk-quant] #3638 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__12_assoc_type_impl_true_definition 4 #3637 #3636
[attach-var-names] #3638 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3639 or #3276 #3635
[inst-discovered] theory-solving 0x0 basic# ; #3636
[mk-app] #3640 = #3636 #3639
[instance] 0x0 #3640
[attach-enode] #3640 0
[end-of-instance]
[mk-quant] #3640 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__12_assoc_type_impl_true_definition 4 #3637 #3639
[attach-var-names] #3640 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3641 proj%core!iter.traits.collect.IntoIterator./IntoIter #120 #3633
[mk-app] #3642 = #3641 #3596
[mk-app] #3643 => #3269 #3642
[mk-app] #3644 pattern #3641
[mk-quant] #3645 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__12_assoc_type_impl_false_definition 4 #3644 #3643
[attach-var-names] #3645 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3646 or #3276 #3642
[inst-discovered] theory-solving 0x0 basic# ; #3643
[mk-app] #3647 = #3643 #3646
[instance] 0x0 #3647
[attach-enode] #3647 0
[end-of-instance]
[mk-quant] #3647 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__12_assoc_type_impl_false_definition 4 #3644 #3646
[attach-var-names] #3647 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3648 proj%%core!iter.traits.collect.IntoIterator./Item #120 #3633
[mk-app] #3649 = #3648 #120
[mk-app] #3650 => #3269 #3649
[mk-app] #3651 pattern #3648
[mk-quant] #3652 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__12_assoc_type_impl_true_definition 4 #3651 #3650
[attach-var-names] #3652 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3653 or #3276 #3649
[inst-discovered] theory-solving 0x0 basic# ; #3650
[mk-app] #3654 = #3650 #3653
[instance] 0x0 #3654
[attach-enode] #3654 0
[end-of-instance]
[mk-quant] #3654 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__12_assoc_type_impl_true_definition 4 #3651 #3653
[attach-var-names] #3654 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3655 proj%core!iter.traits.collect.IntoIterator./Item #120 #3633
[mk-app] #3656 = #3655 #3581
[mk-app] #3657 => #3269 #3656
[mk-app] #3658 pattern #3655
[mk-quant] #3659 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__12_assoc_type_impl_false_definition 4 #3658 #3657
[attach-var-names] #3659 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3660 or #3276 #3656
[inst-discovered] theory-solving 0x0 basic# ; #3657
[mk-app] #3661 = #3657 #3660
[instance] 0x0 #3661
[attach-enode] #3661 0
[end-of-instance]
[mk-quant] #3661 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__12_assoc_type_impl_false_definition 4 #3658 #3660
[attach-var-names] #3661 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3662 MUTREF #120 #3270
[mk-app] #3663 proj%%core!iter.traits.collect.IntoIterator./Item #120 #3662
[mk-app] #3664 = #3663 #120
[mk-app] #3665 => #3269 #3664
[mk-app] #3666 pattern #3663
[mk-quant] #3667 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__19_assoc_type_impl_true_definition 4 #3666 #3665
[attach-var-names] #3667 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3668 or #3276 #3664
[inst-discovered] theory-solving 0x0 basic# ; #3665
[mk-app] #3669 = #3665 #3668
[instance] 0x0 #3669
[attach-enode] #3669 0
[end-of-instance]
[mk-quant] #3669 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__19_assoc_type_impl_true_definition 4 #3666 #3668
[attach-var-names] #3669 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3670 proj%core!iter.traits.collect.IntoIterator./Item #120 #3662
[mk-app] #3671 = #3670 #3581
[mk-app] #3672 => #3269 #3671
[mk-app] #3673 pattern #3670
[mk-quant] #3674 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__19_assoc_type_impl_false_definition 4 #3673 #3672
[attach-var-names] #3674 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3675 or #3276 #3671
[inst-discovered] theory-solving 0x0 basic# ; #3672
[mk-app] #3676 = #3672 #3675
[instance] 0x0 #3676
[attach-enode] #3676 0
[end-of-instance]
[mk-quant] #3676 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__19_assoc_type_impl_false_definition 4 #3673 #3675
[attach-var-names] #3676 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3677 proj%%core!iter.traits.collect.IntoIterator./IntoIter #120 #3662
[mk-app] #3678 = #3677 #120
[mk-app] #3679 => #3269 #3678
[mk-app] #3680 pattern #3677
[mk-quant] #3681 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__19_assoc_type_impl_true_definition 4 #3680 #3679
[attach-var-names] #3681 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3682 or #3276 #3678
[inst-discovered] theory-solving 0x0 basic# ; #3679
[mk-app] #3683 = #3679 #3682
[instance] 0x0 #3683
[attach-enode] #3683 0
[end-of-instance]
[mk-quant] #3683 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__19_assoc_type_impl_true_definition 4 #3680 #3682
[attach-var-names] #3683 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3684 proj%core!iter.traits.collect.IntoIterator./IntoIter #120 #3662
[mk-app] #3685 = #3684 #3596
[mk-app] #3686 => #3269 #3685
[mk-app] #3687 pattern #3684
[mk-quant] #3688 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__19_assoc_type_impl_false_definition 4 #3687 #3686
[attach-var-names] #3688 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3689 or #3276 #3685
[inst-discovered] theory-solving 0x0 basic# ; #3686
[mk-app] #3690 = #3686 #3689
[instance] 0x0 #3690
[attach-enode] #3690 0
[end-of-instance]
[mk-quant] #3690 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__19_assoc_type_impl_false_definition 4 #3687 #3689
[attach-var-names] #3690 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3691 proj%%core!iter.traits.collect.IntoIterator./IntoIter #3513 #3515
[mk-app] #3692 = #3691 #120
[mk-app] #3693 => #3269 #3692
[mk-app] #3694 pattern #3691
[mk-quant] #3695 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__10_assoc_type_impl_true_definition 4 #3694 #3693
[attach-var-names] #3695 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3696 or #3276 #3692
[inst-discovered] theory-solving 0x0 basic# ; #3693
[mk-app] #3697 = #3693 #3696
[instance] 0x0 #3697
[attach-enode] #3697 0
[end-of-instance]
[mk-quant] #3697 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__10_assoc_type_impl_true_definition 4 #3694 #3696
[attach-var-names] #3697 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3698 proj%core!iter.traits.collect.IntoIterator./IntoIter #3513 #3515
[mk-app] #3699 TYPE%alloc!vec.into_iter.IntoIter. #1249 #263 #44 #45
[mk-app] #3700 = #3698 #3699
[mk-app] #3701 => #3269 #3700
[mk-app] #3702 pattern #3698
[mk-quant] #3703 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__10_assoc_type_impl_false_definition 4 #3702 #3701
[attach-var-names] #3703 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3704 or #3276 #3700
[inst-discovered] theory-solving 0x0 basic# ; #3701
[mk-app] #3705 = #3701 #3704
[instance] 0x0 #3705
[attach-enode] #3705 0
[end-of-instance]
[mk-quant] #3705 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__10_assoc_type_impl_false_definition 4 #3702 #3704
[attach-var-names] #3705 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3706 proj%%core!iter.traits.collect.IntoIterator./Item #3513 #3515
[mk-app] #3707 = #3706 #1249
[mk-app] #3708 => #3269 #3707
[mk-app] #3709 pattern #3706
[mk-quant] #3710 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__10_assoc_type_impl_true_definition 4 #3709 #3708
[attach-var-names] #3710 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3711 or #3276 #3707
[inst-discovered] theory-solving 0x0 basic# ; #3708
[mk-app] #3712 = #3708 #3711
[instance] 0x0 #3712
[attach-enode] #3712 0
[end-of-instance]
[mk-quant] #3712 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__10_assoc_type_impl_true_definition 4 #3709 #3711
[attach-var-names] #3712 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3713 proj%core!iter.traits.collect.IntoIterator./Item #3513 #3515
[mk-app] #3714 = #3713 #263
[mk-app] #3715 => #3269 #3714
[mk-app] #3716 pattern #3713
[mk-quant] #3717 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__10_assoc_type_impl_false_definition 4 #3716 #3715
[attach-var-names] #3717 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3718 or #3276 #3714
[inst-discovered] theory-solving 0x0 basic# ; #3715
[mk-app] #3719 = #3715 #3718
[instance] 0x0 #3719
[attach-enode] #3719 0
[end-of-instance]
[mk-quant] #3719 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__10_assoc_type_impl_false_definition 4 #3716 #3718
[attach-var-names] #3719 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3720 proj%%core!iter.traits.collect.IntoIterator./Item #120 #3270
[mk-app] #3721 = #3720 #1249
[mk-app] #3722 => #3269 #3721
[mk-app] #3723 pattern #3720
[mk-quant] #3724 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__17_assoc_type_impl_true_definition 4 #3723 #3722
[attach-var-names] #3724 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3725 or #3276 #3721
[inst-discovered] theory-solving 0x0 basic# ; #3722
[mk-app] #3726 = #3722 #3725
[instance] 0x0 #3726
[attach-enode] #3726 0
[end-of-instance]
[mk-quant] #3726 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__17_assoc_type_impl_true_definition 4 #3723 #3725
[attach-var-names] #3726 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3727 proj%core!iter.traits.collect.IntoIterator./Item #120 #3270
[mk-app] #3728 = #3727 #263
[mk-app] #3729 => #3269 #3728
[mk-app] #3730 pattern #3727
[mk-quant] #3731 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__17_assoc_type_impl_false_definition 4 #3730 #3729
[attach-var-names] #3731 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3732 or #3276 #3728
[inst-discovered] theory-solving 0x0 basic# ; #3729
[mk-app] #3733 = #3729 #3732
[instance] 0x0 #3733
[attach-enode] #3733 0
[end-of-instance]
[mk-quant] #3733 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__17_assoc_type_impl_false_definition 4 #3730 #3732
[attach-var-names] #3733 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3734 proj%%core!iter.traits.collect.IntoIterator./IntoIter #120 #3270
[mk-app] #3735 = #3734 #120
[mk-app] #3736 => #3269 #3735
[mk-app] #3737 pattern #3734
[mk-quant] #3738 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__17_assoc_type_impl_true_definition 4 #3737 #3736
[attach-var-names] #3738 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3739 or #3276 #3735
[inst-discovered] theory-solving 0x0 basic# ; #3736
[mk-app] #3740 = #3736 #3739
[instance] 0x0 #3740
[attach-enode] #3740 0
[end-of-instance]
[mk-quant] #3740 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__17_assoc_type_impl_true_definition 4 #3737 #3739
[attach-var-names] #3740 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3741 proj%core!iter.traits.collect.IntoIterator./IntoIter #120 #3270
[mk-app] #3742 = #3741 #3699
[mk-app] #3743 => #3269 #3742
[mk-app] #3744 pattern #3741
[mk-quant] #3745 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__17_assoc_type_impl_false_definition 4 #3744 #3743
[attach-var-names] #3745 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3746 or #3276 #3742
[inst-discovered] theory-solving 0x0 basic# ; #3743
[mk-app] #3747 = #3743 #3746
[instance] 0x0 #3747
[attach-enode] #3747 0
[end-of-instance]
[mk-quant] #3747 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__17_assoc_type_impl_false_definition 4 #3744 #3746
[attach-var-names] #3747 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3748 and #2967 #3081
[mk-app] #3749 TYPE%core!ops.range.Range. #44 #45
[mk-app] #3750 proj%%core!iter.traits.iterator.Iterator./Item #120 #3749
[mk-app] #3751 = #3750 #44
[mk-app] #3752 => #3748 #3751
[mk-app] #3753 pattern #3750
[mk-quant] #3754 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__6_assoc_type_impl_true_definition 2 #3753 #3752
[attach-var-names] #3754 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3755 not #3748
[mk-app] #3756 or #3755 #3751
[inst-discovered] theory-solving 0x0 basic# ; #3752
[mk-app] #3757 = #3752 #3756
[instance] 0x0 #3757
[attach-enode] #3757 0
[end-of-instance]
[mk-quant] #3757 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__6_assoc_type_impl_true_definition 2 #3753 #3756
[attach-var-names] #3757 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3758 proj%core!iter.traits.iterator.Iterator./Item #120 #3749
[mk-app] #3759 = #3758 #45
[mk-app] #3760 => #3748 #3759
[mk-app] #3761 pattern #3758
[mk-quant] #3762 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__6_assoc_type_impl_false_definition 2 #3761 #3760
[attach-var-names] #3762 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3763 or #3755 #3759
[inst-discovered] theory-solving 0x0 basic# ; #3760
[mk-app] #3764 = #3760 #3763
[instance] 0x0 #3764
[attach-enode] #3764 0
[end-of-instance]
[mk-quant] #3764 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__6_assoc_type_impl_false_definition 2 #3761 #3763
[attach-var-names] #3764 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3765 proj%%core!iter.traits.iterator.Iterator./Item #120 #46
[mk-app] #3766 = #3765 #3052
[mk-app] #3767 => #3051 #3766
[mk-app] #3768 pattern #3765
[mk-quant] #3769 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__traits__iterator__impl&__2_assoc_type_impl_true_definition 2 #3768 #3767
[attach-var-names] #3769 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3770 or #3057 #3766
[inst-discovered] theory-solving 0x0 basic# ; #3767
[mk-app] #3771 = #3767 #3770
[instance] 0x0 #3771
[attach-enode] #3771 0
[end-of-instance]
[mk-quant] #3771 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__traits__iterator__impl&__2_assoc_type_impl_true_definition 2 #3768 #3770
[attach-var-names] #3771 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3772 proj%core!iter.traits.iterator.Iterator./Item #120 #46
[mk-app] #3773 = #3772 #3433
[mk-app] #3774 => #3051 #3773
[mk-app] #3775 pattern #3772
[mk-quant] #3776 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__traits__iterator__impl&__2_assoc_type_impl_false_definition 2 #3775 #3774
[attach-var-names] #3776 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3777 or #3057 #3773
[inst-discovered] theory-solving 0x0 basic# ; #3774
[mk-app] #3778 = #3774 #3777
[instance] 0x0 #3778
[attach-enode] #3778 0
[end-of-instance]
[mk-quant] #3778 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__traits__iterator__impl&__2_assoc_type_impl_false_definition 2 #3775 #3777
[attach-var-names] #3778 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3779 proj%%core!iter.traits.iterator.Iterator./Item #120 #3506
[mk-app] #3780 = #3779 #3206
[mk-app] #3781 => #2967 #3780
[mk-app] #3782 pattern #3779
[mk-quant] #3783 internal_proj____core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__171_assoc_type_impl_true_definition 2 #3782 #3781
[attach-var-names] #3783 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3784 or #3188 #3780
[inst-discovered] theory-solving 0x0 basic# ; #3781
[mk-app] #3785 = #3781 #3784
[instance] 0x0 #3785
[attach-enode] #3785 0
[end-of-instance]
[mk-quant] #3785 internal_proj____core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__171_assoc_type_impl_true_definition 2 #3782 #3784
[attach-var-names] #3785 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3786 proj%core!iter.traits.iterator.Iterator./Item #120 #3506
[mk-app] #3787 = #3786 #45
[mk-app] #3788 => #2967 #3787
[mk-app] #3789 pattern #3786
[mk-quant] #3790 internal_proj__core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__171_assoc_type_impl_false_definition 2 #3789 #3788
[attach-var-names] #3790 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3791 or #3188 #3787
[inst-discovered] theory-solving 0x0 basic# ; #3788
[mk-app] #3792 = #3788 #3791
[instance] 0x0 #3792
[attach-enode] #3792 0
[end-of-instance]
[mk-quant] #3792 internal_proj__core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__171_assoc_type_impl_false_definition 2 #3789 #3791
[attach-var-names] #3792 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3793 proj%%core!iter.traits.iterator.Iterator./Item #120 #3626
[mk-app] #3794 = #3793 #120
[mk-app] #3795 => #2967 #3794
[mk-app] #3796 pattern #3793
[mk-quant] #3797 internal_proj____core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__178_assoc_type_impl_true_definition 2 #3796 #3795
[attach-var-names] #3797 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3798 or #3188 #3794
[inst-discovered] theory-solving 0x0 basic# ; #3795
[mk-app] #3799 = #3795 #3798
[instance] 0x0 #3799
[attach-enode] #3799 0
[end-of-instance]
[mk-quant] #3799 internal_proj____core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__178_assoc_type_impl_true_definition 2 #3796 #3798
[attach-var-names] #3799 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3800 proj%core!iter.traits.iterator.Iterator./Item #120 #3626
[mk-app] #3801 = #3800 #46
[mk-app] #3802 => #2967 #3801
[mk-app] #3803 pattern #3800
[mk-quant] #3804 internal_proj__core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__178_assoc_type_impl_false_definition 2 #3803 #3802
[attach-var-names] #3804 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3805 or #3188 #3801
[inst-discovered] theory-solving 0x0 basic# ; #3802
[mk-app] #3806 = #3802 #3805
[instance] 0x0 #3806
[attach-enode] #3806 0
[end-of-instance]
[mk-quant] #3806 internal_proj__core!iter.traits.iterator.Iterator./Item_core__slice__iter__impl&__178_assoc_type_impl_false_definition 2 #3803 #3805
[attach-var-names] #3806 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3807 tr_bound%core!iter.traits.iterator.Iterator. #1249 #263
[mk-app] #3808 and #2967 #3807 #3045
[mk-app] #3809 proj%%core!iter.traits.iterator.Iterator./Item #3407 #263
[mk-app] #3810 proj%%core!iter.traits.iterator.Iterator./Item #1249 #263
[mk-app] #3811 = #3809 #3810
[mk-app] #3812 => #3808 #3811
[mk-app] #3813 pattern #3809
[mk-quant] #3814 internal_proj____core!iter.traits.iterator.Iterator./Item_alloc__boxed__iter__impl&__0_assoc_type_impl_true_definition 4 #3813 #3812
[attach-var-names] #3814 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3815 not #3808
[mk-app] #3816 or #3815 #3811
[inst-discovered] theory-solving 0x0 basic# ; #3812
[mk-app] #3817 = #3812 #3816
[instance] 0x0 #3817
[attach-enode] #3817 0
[end-of-instance]
[mk-quant] #3817 internal_proj____core!iter.traits.iterator.Iterator./Item_alloc__boxed__iter__impl&__0_assoc_type_impl_true_definition 4 #3813 #3816
[attach-var-names] #3817 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3818 proj%core!iter.traits.iterator.Iterator./Item #3407 #263
[mk-app] #3819 proj%core!iter.traits.iterator.Iterator./Item #1249 #263
[mk-app] #3820 = #3818 #3819
[mk-app] #3821 => #3808 #3820
[mk-app] #3822 pattern #3818
[mk-quant] #3823 internal_proj__core!iter.traits.iterator.Iterator./Item_alloc__boxed__iter__impl&__0_assoc_type_impl_false_definition 4 #3822 #3821
[attach-var-names] #3823 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3824 or #3815 #3820
[inst-discovered] theory-solving 0x0 basic# ; #3821
[mk-app] #3825 = #3821 #3824
[instance] 0x0 #3825
[attach-enode] #3825 0
[end-of-instance]
[mk-quant] #3825 internal_proj__core!iter.traits.iterator.Iterator./Item_alloc__boxed__iter__impl&__0_assoc_type_impl_false_definition 4 #3822 #3824
[attach-var-names] #3825 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #3826 proj%%core!iter.traits.iterator.Iterator./Item #120 #3699
[mk-app] #3827 = #3826 #1249
[mk-app] #3828 => #3269 #3827
[mk-app] #3829 pattern #3826
[mk-quant] #3830 internal_proj____core!iter.traits.iterator.Iterator./Item_alloc__vec__into_iter__impl&__6_assoc_type_impl_true_definition 4 #3829 #3828
[attach-var-names] #3830 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3831 or #3276 #3827
[inst-discovered] theory-solving 0x0 basic# ; #3828
[mk-app] #3832 = #3828 #3831
[instance] 0x0 #3832
[attach-enode] #3832 0
[end-of-instance]
[mk-quant] #3832 internal_proj____core!iter.traits.iterator.Iterator./Item_alloc__vec__into_iter__impl&__6_assoc_type_impl_true_definition 4 #3829 #3831
[attach-var-names] #3832 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3833 proj%core!iter.traits.iterator.Iterator./Item #120 #3699
[mk-app] #3834 = #3833 #263
[mk-app] #3835 => #3269 #3834
[mk-app] #3836 pattern #3833
[mk-quant] #3837 internal_proj__core!iter.traits.iterator.Iterator./Item_alloc__vec__into_iter__impl&__6_assoc_type_impl_false_definition 4 #3836 #3835
[attach-var-names] #3837 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3838 or #3276 #3834
[inst-discovered] theory-solving 0x0 basic# ; #3835
[mk-app] #3839 = #3835 #3838
[instance] 0x0 #3839
[attach-enode] #3839 0
[end-of-instance]
[mk-quant] #3839 internal_proj__core!iter.traits.iterator.Iterator./Item_alloc__vec__into_iter__impl&__6_assoc_type_impl_false_definition 4 #3836 #3838
[attach-var-names] #3839 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3840 DST #120
[mk-app] #3841 TYPE%tuple%1. #120 #46
[mk-app] #3842 proj%%core!ops.function.FnOnce./Output #120 #2955 #3840 #3841
[mk-app] #3843 = #3842 #120
[mk-app] #3844 => #3051 #3843
[mk-app] #3845 pattern #3842
[mk-quant] #3846 internal_proj____core!ops.function.FnOnce./Output_core__iter__traits__iterator__Iterator__next__impl_fndef&__FnOnce_assoc_type_impl_true_definition 2 #3845 #3844
[attach-var-names] #3846 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3847 or #3057 #3843
[inst-discovered] theory-solving 0x0 basic# ; #3844
[mk-app] #3848 = #3844 #3847
[instance] 0x0 #3848
[attach-enode] #3848 0
[end-of-instance]
[mk-quant] #3848 internal_proj____core!ops.function.FnOnce./Output_core__iter__traits__iterator__Iterator__next__impl_fndef&__FnOnce_assoc_type_impl_true_definition 2 #3845 #3847
[attach-var-names] #3848 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3849 proj%core!ops.function.FnOnce./Output #120 #2955 #3840 #3841
[mk-app] #3850 TYPE%core!option.Option. #3052 #3433
[mk-app] #3851 = #3849 #3850
[mk-app] #3852 => #3051 #3851
[mk-app] #3853 pattern #3849
[mk-quant] #3854 internal_proj__core!ops.function.FnOnce./Output_core__iter__traits__iterator__Iterator__next__impl_fndef&__FnOnce_assoc_type_impl_false_definition 2 #3853 #3852
[attach-var-names] #3854 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3855 or #3057 #3851
[inst-discovered] theory-solving 0x0 basic# ; #3852
[mk-app] #3856 = #3852 #3855
[instance] 0x0 #3856
[attach-enode] #3856 0
[end-of-instance]
[mk-quant] #3856 internal_proj__core!ops.function.FnOnce./Output_core__iter__traits__iterator__Iterator__next__impl_fndef&__FnOnce_assoc_type_impl_false_definition 2 #3853 #3855
[attach-var-names] #3856 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #3857 FNDEF%core!iter.traits.iterator.Iterator.next. #120 #3749
[mk-app] #3858 MUTREF #120 #3749
[mk-app] #3859 TYPE%tuple%1. #120 #3858
[mk-app] #3860 proj%%core!ops.function.FnOnce./Output #120 #3857 #3840 #3859
[mk-app] #3861 = #3860 #120
[mk-app] #3862 => #3748 #3861
[mk-app] #3863 pattern #3860
[mk-quant] #3864 internal_proj____core!ops.function.FnOnce./Output_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_assoc_type_impl_true_definition 2 #3863 #3862
[attach-var-names] #3864 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3865 or #3755 #3861
[inst-discovered] theory-solving 0x0 basic# ; #3862
[mk-app] #3866 = #3862 #3865
[instance] 0x0 #3866
[attach-enode] #3866 0
[end-of-instance]
[mk-quant] #3866 internal_proj____core!ops.function.FnOnce./Output_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_assoc_type_impl_true_definition 2 #3863 #3865
[attach-var-names] #3866 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3867 proj%core!ops.function.FnOnce./Output #120 #3857 #3840 #3859
[mk-app] #3868 = #3867 #1716
[mk-app] #3869 => #3748 #3868
[mk-app] #3870 pattern #3867
[mk-quant] #3871 internal_proj__core!ops.function.FnOnce./Output_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_assoc_type_impl_false_definition 2 #3870 #3869
[attach-var-names] #3871 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3872 or #3755 #3868
[inst-discovered] theory-solving 0x0 basic# ; #3869
[mk-app] #3873 = #3869 #3872
[instance] 0x0 #3873
[attach-enode] #3873 0
[end-of-instance]
[mk-quant] #3873 internal_proj__core!ops.function.FnOnce./Output_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_assoc_type_impl_false_definition 2 #3870 #3872
[attach-var-names] #3873 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3874 TYPE%vstd!seq.Seq. #64 #65
[mk-app] #3875 has_type #33 #3874
[mk-app] #3876 vstd!seq.Seq.len.? #64 #65 #33
[mk-app] #3877 <= #334 #3876
[mk-app] #3878 => #3875 #3877
[mk-app] #3879 pattern #3876
[mk-quant] #3880 internal_vstd!seq.Seq.len.?_pre_post_definition 3 #3879 #3878
[attach-var-names] #3880 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[attach-meaning] #363 arith (- 1)
[mk-app] #3881 * #363 #3876
[mk-app] #3882 >= #3876 #334
[inst-discovered] theory-solving 0x0 arith# ; #3877
[mk-app] #3881 = #3877 #3882
[instance] 0x0 #3881
[attach-enode] #3881 0
[end-of-instance]
[mk-app] #3881 not #3875
[mk-app] #3883 or #3881 #3882
[mk-app] #3884 => #3875 #3882
[inst-discovered] theory-solving 0x0 basic# ; #3884
[mk-app] #3885 = #3884 #3883
[instance] 0x0 #3885
[attach-enode] #3885 0
[end-of-instance]
[mk-quant] #3884 internal_vstd!seq.Seq.len.?_pre_post_definition 3 #3879 #3883
[attach-var-names] #3884 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3885 req%vstd!seq.Seq.index. #1249 #263 #32 #33
[mk-app] #3886 %%global_location_label%%0
[mk-app] #3887 vstd!seq.Seq.len.? #1249 #263 #32
[mk-app] #3888 < #186 #3887
[mk-app] #3889 and #510 #3888
[mk-app] #3890 => #3886 #3889
[mk-app] #3891 = #3885 #3890
[mk-app] #3892 pattern #3885
[mk-quant] #3893 internal_req__vstd!seq.Seq.index._definition 4 #3892 #3891
[attach-var-names] #3893 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[attach-meaning] #363 arith (- 1)
[mk-app] #3894 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #3894 = #510 #514
[instance] 0x0 #3894
[attach-enode] #3894 0
[end-of-instance]
[mk-app] #3894 <= #3887 #186
[mk-app] #3895 not #3894
[inst-discovered] theory-solving 0x0 arith# ; #3888
[mk-app] #3896 = #3888 #3895
[instance] 0x0 #3896
[attach-enode] #3896 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #3896 * #363 #186
[mk-app] #3897 + #3896 #3887
[attach-meaning] #363 arith (- 1)
[mk-app] #3898 * #363 #3887
[mk-app] #3899 + #186 #3898
[mk-app] #3896 >= #3899 #334
[inst-discovered] theory-solving 0x0 arith# ; #3894
[mk-app] #3897 = #3894 #3896
[instance] 0x0 #3897
[attach-enode] #3897 0
[end-of-instance]
[mk-app] #3897 not #3896
[mk-app] #3900 and #514 #3897
[mk-app] #3901 not #3886
[mk-app] #3902 or #3901 #3900
[mk-app] #3903 => #3886 #3900
[inst-discovered] theory-solving 0x0 basic# ; #3903
[mk-app] #3904 = #3903 #3902
[instance] 0x0 #3904
[attach-enode] #3904 0
[end-of-instance]
[mk-app] #3903 = #3885 #3902
[mk-quant] #3904 internal_req__vstd!seq.Seq.index._definition 4 #3892 #3903
[attach-var-names] #3904 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3894 has_type #32 #3156
[mk-app] #3895 and #3894 #185
[mk-app] #3905 vstd!seq.Seq.index.? #1249 #263 #32 #33
[mk-app] #3906 has_type #3905 #263
[mk-app] #3907 => #3895 #3906
[mk-app] #3908 pattern #3905
[mk-quant] #3909 internal_vstd!seq.Seq.index.?_pre_post_definition 4 #3908 #3907
[attach-var-names] #3909 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3910 not #3895
[mk-app] #3911 or #3910 #3906
[inst-discovered] theory-solving 0x0 basic# ; #3907
[mk-app] #3912 = #3907 #3911
[instance] 0x0 #3912
[attach-enode] #3912 0
[end-of-instance]
[mk-quant] #3912 internal_vstd!seq.Seq.index.?_pre_post_definition 4 #3908 #3911
[attach-var-names] #3912 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3913 req%vstd!seq.impl&%2.spec_index. #1249 #263 #32 #33
[mk-app] #3914 %%global_location_label%%1
[mk-app] #3915 => #3914 #3889
[mk-app] #3916 = #3913 #3915
[mk-app] #3917 pattern #3913
[mk-quant] #3918 internal_req__vstd!seq.impl&__2.spec_index._definition 4 #3917 #3916
[attach-var-names] #3918 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[attach-meaning] #363 arith (- 1)
[mk-app] #3919 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #3919 = #510 #514
[instance] 0x0 #3919
[attach-enode] #3919 0
[end-of-instance]
[mk-app] #3919 <= #3887 #186
[mk-app] #3920 not #3919
[inst-discovered] theory-solving 0x0 arith# ; #3888
[mk-app] #3921 = #3888 #3920
[instance] 0x0 #3921
[attach-enode] #3921 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #3921 * #363 #186
[mk-app] #3922 + #3921 #3887
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #3919
[mk-app] #3921 = #3919 #3896
[instance] 0x0 #3921
[attach-enode] #3921 0
[end-of-instance]
[mk-app] #3921 not #3914
[mk-app] #3922 or #3921 #3900
[mk-app] #3923 => #3914 #3900
[inst-discovered] theory-solving 0x0 basic# ; #3923
[mk-app] #3924 = #3923 #3922
[instance] 0x0 #3924
[attach-enode] #3924 0
[end-of-instance]
[mk-app] #3923 = #3913 #3922
[mk-quant] #3924 internal_req__vstd!seq.impl&__2.spec_index._definition 4 #3917 #3923
[attach-var-names] #3924 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3919 fuel_bool_default #859
[mk-app] #3920 fuel_bool #859
[mk-app] #3925 vstd!seq.impl&%2.spec_index.? #1249 #263 #32 #33
[mk-app] #3926 = #3925 #3905
[mk-app] #3927 pattern #3925
[mk-quant] #3928 internal_vstd!seq.impl&__2.spec_index.?_definition 4 #3927 #3926
[attach-var-names] #3928 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3929 => #3920 #3928
[mk-app] #3930 not #3920
[mk-app] #3931 or #3930 #3928
[inst-discovered] theory-solving 0x0 basic# ; #3929
[mk-app] #3932 = #3929 #3931
[instance] 0x0 #3932
[attach-enode] #3932 0
[end-of-instance]
[mk-app] #3932 has_type #3925 #263
[mk-app] #3933 => #3895 #3932
[mk-quant] #3934 internal_vstd!seq.impl&__2.spec_index.?_pre_post_definition 4 #3927 #3933
[attach-var-names] #3934 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3935 or #3910 #3932
[inst-discovered] theory-solving 0x0 basic# ; #3933
[mk-app] #3936 = #3933 #3935
[instance] 0x0 #3936
[attach-enode] #3936 0
[end-of-instance]
[mk-quant] #3936 internal_vstd!seq.impl&__2.spec_index.?_pre_post_definition 4 #3927 #3935
[attach-var-names] #3936 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3937 fuel_bool #864
[mk-app] #3938 and #3106 #3889
[mk-app] #3939 height #3905
[mk-app] #3940 height_lt #3939 #761
[mk-app] #3941 => #3938 #3940
[mk-app] #3942 => #3895 #3941
[mk-app] #3943 pattern #3939
[mk-quant] #3944 user_vstd__seq__lemma_seq_index_decreases_0 4 #3943 #3942
[attach-var-names] #3944 (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3945 => #3937 #3944
[attach-meaning] #363 arith (- 1)
[mk-app] #3946 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #3946 = #510 #514
[instance] 0x0 #3946
[attach-enode] #3946 0
[end-of-instance]
[mk-app] #3946 <= #3887 #186
[mk-app] #3947 not #3946
[inst-discovered] theory-solving 0x0 arith# ; #3888
[mk-app] #3948 = #3888 #3947
[instance] 0x0 #3948
[attach-enode] #3948 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #3948 * #363 #186
[mk-app] #3949 + #3948 #3887
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #3946
[mk-app] #3948 = #3946 #3896
[instance] 0x0 #3948
[attach-enode] #3948 0
[end-of-instance]
[mk-app] #3948 and #3106 #514 #3897
[mk-app] #3949 and #3106 #3900
[inst-discovered] theory-solving 0x0 basic# ; #3949
[mk-app] #3950 = #3949 #3948
[instance] 0x0 #3950
[attach-enode] #3950 0
[end-of-instance]
[mk-app] #3949 not #3948
[mk-app] #3950 or #3949 #3940
[mk-app] #3951 => #3948 #3940
[inst-discovered] theory-solving 0x0 basic# ; #3951
[mk-app] #3952 = #3951 #3950
[instance] 0x0 #3952
[attach-enode] #3952 0
[end-of-instance]
[mk-app] #3951 or #3910 #3949 #3940
[mk-app] #3952 => #3895 #3950
[inst-discovered] theory-solving 0x0 basic# ; #3952
[mk-app] #3953 = #3952 #3951
[instance] 0x0 #3953
[attach-enode] #3953 0
[end-of-instance]
[mk-quant] #3950 user_vstd__seq__lemma_seq_index_decreases_0 4 #3943 #3951
[attach-var-names] #3950 (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3946 not #3937
[mk-app] #3947 or #3946 #3950
[mk-app] #3952 => #3937 #3950
[inst-discovered] theory-solving 0x0 basic# ; #3952
[mk-app] #3953 = #3952 #3947
[instance] 0x0 #3953
[attach-enode] #3953 0
[end-of-instance]
[mk-app] #3952 req%vstd!seq.Seq.subrange. #1216 #1217 #43 #32 #33
[mk-app] #3953 %%global_location_label%%2
[mk-app] #3954 vstd!seq.Seq.len.? #1216 #1217 #43
[mk-app] #3955 <= #674 #186
[mk-app] #3956 and #727 #3955
[mk-app] #3957 <= #186 #3954
[mk-app] #3958 and #3956 #3957
[mk-app] #3959 => #3953 #3958
[mk-app] #3960 = #3952 #3959
[mk-app] #3961 pattern #3952
[mk-quant] #3962 internal_req__vstd!seq.Seq.subrange._definition 5 #3961 #3960
[attach-var-names] #3962 (|end_exclusive!| ; |Poly|) (|start_inclusive!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[attach-meaning] #363 arith (- 1)
[mk-app] #3963 * #363 #674
[inst-discovered] theory-solving 0x0 arith# ; #727
[mk-app] #3963 = #727 #736
[instance] 0x0 #3963
[attach-enode] #3963 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #3963 * #363 #186
[mk-app] #3964 + #3963 #674
[attach-meaning] #363 arith (- 1)
[mk-app] #3965 * #363 #674
[mk-app] #3966 + #186 #3965
[mk-app] #3963 >= #3966 #334
[inst-discovered] theory-solving 0x0 arith# ; #3955
[mk-app] #3964 = #3955 #3963
[instance] 0x0 #3964
[attach-enode] #3964 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #3964 * #363 #3954
[mk-app] #3967 + #186 #3964
[mk-app] #3968 <= #3967 #334
[inst-discovered] theory-solving 0x0 arith# ; #3957
[mk-app] #3969 = #3957 #3968
[instance] 0x0 #3969
[attach-enode] #3969 0
[end-of-instance]
[mk-app] #3969 and #736 #3963 #3968
[mk-app] #3970 not #3953
[mk-app] #3971 or #3970 #3969
[mk-app] #3972 => #3953 #3969
[inst-discovered] theory-solving 0x0 basic# ; #3972
[mk-app] #3973 = #3972 #3971
[instance] 0x0 #3973
[attach-enode] #3973 0
[end-of-instance]
[mk-app] #3972 = #3952 #3971
[mk-quant] #3973 internal_req__vstd!seq.Seq.subrange._definition 5 #3961 #3972
[attach-var-names] #3973 (|end_exclusive!| ; |Poly|) (|start_inclusive!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3974 TYPE%vstd!seq.Seq. #1216 #1217
[mk-app] #3975 has_type #43 #3974
[mk-app] #3976 has_type #32 #184
[mk-app] #3977 and #3975 #3976 #185
[mk-app] #3978 vstd!seq.Seq.subrange.? #1216 #1217 #43 #32 #33
[mk-app] #3979 has_type #3978 #3974
[mk-app] #3980 => #3977 #3979
[mk-app] #3981 pattern #3978
[mk-quant] #3982 internal_vstd!seq.Seq.subrange.?_pre_post_definition 5 #3981 #3980
[attach-var-names] #3982 (|end_exclusive!| ; |Poly|) (|start_inclusive!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3983 not #3977
[mk-app] #3984 or #3983 #3979
[inst-discovered] theory-solving 0x0 basic# ; #3980
[mk-app] #3985 = #3980 #3984
[instance] 0x0 #3985
[attach-enode] #3985 0
[end-of-instance]
[mk-quant] #3985 internal_vstd!seq.Seq.subrange.?_pre_post_definition 5 #3981 #3984
[attach-var-names] #3985 (|end_exclusive!| ; |Poly|) (|start_inclusive!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3986 fuel_bool #865
[mk-app] #3987 sized #1216
[mk-app] #3988 and #3987 #3958
[mk-app] #3989 vstd!seq.Seq.len.? #1216 #1217 #3978
[mk-app] #3990 < #3989 #3954
[mk-app] #3991 and #3988 #3990
[mk-app] #3992 height #3978
[mk-app] #3993 height_lt #3992 #760
[mk-app] #3994 => #3991 #3993
[mk-app] #3995 => #3977 #3994
[mk-app] #3996 pattern #3992
[mk-quant] #3997 user_vstd__seq__lemma_seq_subrange_decreases_0 5 #3996 #3995
[attach-var-names] #3997 (|j!| ; |Poly|) (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3998 => #3986 #3997
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #727
[mk-app] #3999 = #727 #736
[instance] 0x0 #3999
[attach-enode] #3999 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #3999 * #363 #186
[mk-app] #4000 + #3999 #674
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #3955
[mk-app] #3999 = #3955 #3963
[instance] 0x0 #3999
[attach-enode] #3999 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #3957
[mk-app] #3999 = #3957 #3968
[instance] 0x0 #3999
[attach-enode] #3999 0
[end-of-instance]
[mk-app] #3999 <= #3954 #3989
[mk-app] #4000 not #3999
[inst-discovered] theory-solving 0x0 arith# ; #3990
[mk-app] #4001 = #3990 #4000
[instance] 0x0 #4001
[attach-enode] #4001 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4001 * #363 #3989
[mk-app] #4002 + #3954 #4001
[mk-app] #4003 <= #4002 #334
[inst-discovered] theory-solving 0x0 arith# ; #3999
[mk-app] #4004 = #3999 #4003
[instance] 0x0 #4004
[attach-enode] #4004 0
[end-of-instance]
[mk-app] #4004 not #4003
[mk-app] #4005 and #3987 #736 #3963 #3968 #4004
[mk-app] #4006 and #3987 #3969 #4004
[inst-discovered] theory-solving 0x0 basic# ; #4006
[mk-app] #4007 = #4006 #4005
[instance] 0x0 #4007
[attach-enode] #4007 0
[end-of-instance]
[mk-app] #4006 not #4005
[mk-app] #4007 or #4006 #3993
[mk-app] #4008 => #4005 #3993
[inst-discovered] theory-solving 0x0 basic# ; #4008
[mk-app] #4009 = #4008 #4007
[instance] 0x0 #4009
[attach-enode] #4009 0
[end-of-instance]
[mk-app] #4008 or #3983 #4006 #3993
[mk-app] #4009 => #3977 #4007
[inst-discovered] theory-solving 0x0 basic# ; #4009
[mk-app] #4010 = #4009 #4008
[instance] 0x0 #4010
[attach-enode] #4010 0
[end-of-instance]
[mk-quant] #4007 user_vstd__seq__lemma_seq_subrange_decreases_0 5 #3996 #4008
[attach-var-names] #4007 (|j!| ; |Poly|) (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #3999 not #3986
[mk-app] #4000 or #3999 #4007
[mk-app] #4009 => #3986 #4007
[inst-discovered] theory-solving 0x0 basic# ; #4009
[mk-app] #4010 = #4009 #4000
[instance] 0x0 #4010
[attach-enode] #4010 0
[end-of-instance]
[mk-app] #4009 vstd!seq.Seq.empty.? #44 #45
[mk-app] #4010 has_type #4009 #2963
[mk-app] #4011 pattern #4009
[mk-quant] #4012 internal_vstd!seq.Seq.empty.?_pre_post_definition 2 #4011 #4010
[attach-var-names] #4012 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4013 fuel_bool #866
[mk-app] #4014 vstd!seq.Seq.len.? #44 #45 #4009
[mk-app] #4015 = #4014 #334
[mk-app] #4016 => #2967 #4015
[mk-app] #4017 pattern #4014
[mk-quant] #4018 user_vstd__seq__lemma_seq_empty_0 2 #4017 #4016
[attach-var-names] #4018 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4019 => #4013 #4018
[mk-app] #4020 or #3188 #4015
[inst-discovered] theory-solving 0x0 basic# ; #4016
[mk-app] #4021 = #4016 #4020
[instance] 0x0 #4021
[attach-enode] #4021 0
[end-of-instance]
[mk-quant] #4021 user_vstd__seq__lemma_seq_empty_0 2 #4017 #4020
[attach-var-names] #4021 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4022 not #4013
[mk-app] #4023 or #4022 #4021
[mk-app] #4024 => #4013 #4021
[inst-discovered] theory-solving 0x0 basic# ; #4024
[mk-app] #4025 = #4024 #4023
[instance] 0x0 #4025
[attach-enode] #4025 0
[end-of-instance]
[mk-app] #4024 has_type #32 #195
[mk-app] #4025 TYPE%fun%1. #120 #184 #1249 #263
[mk-app] #4026 has_type #33 #4025
[mk-app] #4027 and #4024 #4026
[mk-app] #4028 vstd!seq.Seq.new.? #1249 #263 #32 #33
[mk-app] #4029 has_type #4028 #3156
[mk-app] #4030 => #4027 #4029
[mk-app] #4031 pattern #4028
[mk-quant] #4032 internal_vstd!seq.Seq.new.?_pre_post_definition 4 #4031 #4030
[attach-var-names] #4032 (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4033 not #4027
[mk-app] #4034 or #4033 #4029
[inst-discovered] theory-solving 0x0 basic# ; #4030
[mk-app] #4035 = #4030 #4034
[instance] 0x0 #4035
[attach-enode] #4035 0
[end-of-instance]
[mk-quant] #4035 internal_vstd!seq.Seq.new.?_pre_post_definition 4 #4031 #4034
[attach-var-names] #4035 (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4036 fuel_bool #867
[mk-app] #4037 vstd!seq.Seq.len.? #1249 #263 #4028
[mk-app] #4038 = #4037 #674
[mk-app] #4039 => #3106 #4038
[mk-app] #4040 => #4027 #4039
[mk-app] #4041 pattern #4037
[mk-quant] #4042 user_vstd__seq__lemma_seq_new_len_0 4 #4041 #4040
[attach-var-names] #4042 (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4043 => #4036 #4042
[mk-app] #4044 not #3106
[mk-app] #4045 or #4044 #4038
[inst-discovered] theory-solving 0x0 basic# ; #4039
[mk-app] #4046 = #4039 #4045
[instance] 0x0 #4046
[attach-enode] #4046 0
[end-of-instance]
[mk-app] #4046 or #4033 #4044 #4038
[mk-app] #4047 => #4027 #4045
[inst-discovered] theory-solving 0x0 basic# ; #4047
[mk-app] #4048 = #4047 #4046
[instance] 0x0 #4048
[attach-enode] #4048 0
[end-of-instance]
[mk-quant] #4045 user_vstd__seq__lemma_seq_new_len_0 4 #4041 #4046
[attach-var-names] #4045 (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4047 not #4036
[mk-app] #4048 or #4047 #4045
[mk-app] #4049 => #4036 #4045
[inst-discovered] theory-solving 0x0 basic# ; #4049
[mk-app] #4050 = #4049 #4048
[instance] 0x0 #4050
[attach-enode] #4050 0
[end-of-instance]
[mk-app] #4049 fuel_bool #868
[mk-app] #4050 has_type #43 #195
[mk-app] #4051 TYPE%fun%1. #120 #184 #1216 #1217
[mk-app] #4052 has_type #32 #4051
[mk-app] #4053 and #4050 #4052 #185
[mk-app] #4054 < #186 #664
[mk-app] #4055 and #510 #4054
[mk-app] #4056 and #3987 #4055
[mk-app] #4057 vstd!seq.Seq.new.? #1216 #1217 #43 #32
[mk-app] #4058 vstd!seq.Seq.index.? #1216 #1217 #4057 #33
[mk-app] #4059 = #4058 #1282
[mk-app] #4060 => #4056 #4059
[mk-app] #4061 => #4053 #4060
[mk-app] #4062 pattern #4058
[mk-quant] #4063 user_vstd__seq__lemma_seq_new_index_0 5 #4062 #4061
[attach-var-names] #4063 (|i!| ; |Poly|) (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4064 => #4049 #4063
[attach-meaning] #363 arith (- 1)
[mk-app] #4065 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4065 = #510 #514
[instance] 0x0 #4065
[attach-enode] #4065 0
[end-of-instance]
[mk-app] #4065 <= #664 #186
[mk-app] #4066 not #4065
[inst-discovered] theory-solving 0x0 arith# ; #4054
[mk-app] #4067 = #4054 #4066
[instance] 0x0 #4067
[attach-enode] #4067 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4067 * #363 #186
[mk-app] #4068 + #4067 #664
[attach-meaning] #363 arith (- 1)
[mk-app] #4069 * #363 #664
[mk-app] #4070 + #186 #4069
[mk-app] #4067 >= #4070 #334
[inst-discovered] theory-solving 0x0 arith# ; #4065
[mk-app] #4068 = #4065 #4067
[instance] 0x0 #4068
[attach-enode] #4068 0
[end-of-instance]
[mk-app] #4068 not #4067
[mk-app] #4071 and #3987 #514 #4068
[mk-app] #4072 not #4071
[mk-app] #4073 or #4072 #4059
[mk-app] #4074 => #4071 #4059
[inst-discovered] theory-solving 0x0 basic# ; #4074
[mk-app] #4075 = #4074 #4073
[instance] 0x0 #4075
[attach-enode] #4075 0
[end-of-instance]
[mk-app] #4074 not #4053
[mk-app] #4075 or #4074 #4072 #4059
[mk-app] #4076 => #4053 #4073
[inst-discovered] theory-solving 0x0 basic# ; #4076
[mk-app] #4077 = #4076 #4075
[instance] 0x0 #4077
[attach-enode] #4077 0
[end-of-instance]
[mk-quant] #4073 user_vstd__seq__lemma_seq_new_index_0 5 #4062 #4075
[attach-var-names] #4073 (|i!| ; |Poly|) (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4065 not #4049
[mk-app] #4066 or #4065 #4073
[mk-app] #4076 => #4049 #4073
[inst-discovered] theory-solving 0x0 basic# ; #4076
[mk-app] #4077 = #4076 #4066
[instance] 0x0 #4077
[attach-enode] #4077 0
[end-of-instance]
[mk-app] #4076 and #3894 #1988
[mk-app] #4077 vstd!seq.Seq.push.? #1249 #263 #32 #33
[mk-app] #4078 has_type #4077 #3156
[mk-app] #4079 => #4076 #4078
[mk-app] #4080 pattern #4077
[mk-quant] #4081 internal_vstd!seq.Seq.push.?_pre_post_definition 4 #4080 #4079
[attach-var-names] #4081 (|a!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4082 not #4076
[mk-app] #4083 or #4082 #4078
[inst-discovered] theory-solving 0x0 basic# ; #4079
[mk-app] #4084 = #4079 #4083
[instance] 0x0 #4084
[attach-enode] #4084 0
[end-of-instance]
[mk-quant] #4084 internal_vstd!seq.Seq.push.?_pre_post_definition 4 #4080 #4083
[attach-var-names] #4084 (|a!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4085 fuel_bool #869
[mk-app] #4086 vstd!seq.Seq.len.? #1249 #263 #4077
[mk-app] #4087 Add #3887 #289
[mk-app] #4088 nClip #4087
[mk-app] #4089 = #4086 #4088
[mk-app] #4090 => #3106 #4089
[mk-app] #4091 => #4076 #4090
[mk-app] #4092 pattern #4086
[mk-quant] #4093 user_vstd__seq__lemma_seq_push_len_0 4 #4092 #4091
[attach-var-names] #4093 (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4094 => #4085 #4093
[mk-app] #4095 or #4044 #4089
[inst-discovered] theory-solving 0x0 basic# ; #4090
[mk-app] #4096 = #4090 #4095
[instance] 0x0 #4096
[attach-enode] #4096 0
[end-of-instance]
[mk-app] #4096 or #4082 #4044 #4089
[mk-app] #4097 => #4076 #4095
[inst-discovered] theory-solving 0x0 basic# ; #4097
[mk-app] #4098 = #4097 #4096
[instance] 0x0 #4098
[attach-enode] #4098 0
[end-of-instance]
[mk-quant] #4095 user_vstd__seq__lemma_seq_push_len_0 4 #4092 #4096
[attach-var-names] #4095 (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4097 not #4085
[mk-app] #4098 or #4097 #4095
[mk-app] #4099 => #4085 #4095
[inst-discovered] theory-solving 0x0 basic# ; #4099
[mk-app] #4100 = #4099 #4098
[instance] 0x0 #4100
[attach-enode] #4100 0
[end-of-instance]
[mk-app] #4099 fuel_bool #870
[mk-app] #4100 has_type #32 #1217
[mk-app] #4101 and #3975 #4100 #185
[mk-app] #4102 = #186 #3954
[mk-app] #4103 and #3987 #4102
[mk-app] #4104 vstd!seq.Seq.push.? #1216 #1217 #43 #32
[mk-app] #4105 vstd!seq.Seq.index.? #1216 #1217 #4104 #33
[mk-app] #4106 = #4105 #32
[mk-app] #4107 => #4103 #4106
[mk-app] #4108 => #4101 #4107
[mk-app] #4109 pattern #4105
[mk-quant] #4110 user_vstd__seq__lemma_seq_push_index_same_0 5 #4109 #4108
[attach-var-names] #4110 (|i!| ; |Poly|) (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4111 => #4099 #4110
[mk-app] #4112 not #4103
[mk-app] #4113 or #4112 #4106
[inst-discovered] theory-solving 0x0 basic# ; #4107
[mk-app] #4114 = #4107 #4113
[instance] 0x0 #4114
[attach-enode] #4114 0
[end-of-instance]
[mk-app] #4114 not #4101
[mk-app] #4115 or #4114 #4112 #4106
[mk-app] #4116 => #4101 #4113
[inst-discovered] theory-solving 0x0 basic# ; #4116
[mk-app] #4117 = #4116 #4115
[instance] 0x0 #4117
[attach-enode] #4117 0
[end-of-instance]
[mk-quant] #4113 user_vstd__seq__lemma_seq_push_index_same_0 5 #4109 #4115
[attach-var-names] #4113 (|i!| ; |Poly|) (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4116 not #4099
[mk-app] #4117 or #4116 #4113
[mk-app] #4118 => #4099 #4113
[inst-discovered] theory-solving 0x0 basic# ; #4118
[mk-app] #4119 = #4118 #4117
[instance] 0x0 #4119
[attach-enode] #4119 0
[end-of-instance]
[mk-app] #4118 fuel_bool #871
[mk-app] #4119 < #186 #3954
[mk-app] #4120 and #3987 #4119
[mk-app] #4121 vstd!seq.Seq.index.? #1216 #1217 #43 #33
[mk-app] #4122 = #4105 #4121
[mk-app] #4123 => #4120 #4122
[mk-app] #4124 => #4101 #4123
[mk-quant] #4125 user_vstd__seq__lemma_seq_push_index_different_0 5 #4109 #4124
[attach-var-names] #4125 (|i!| ; |Poly|) (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4126 => #4118 #4125
[mk-app] #4127 <= #3954 #186
[mk-app] #4128 not #4127
[inst-discovered] theory-solving 0x0 arith# ; #4119
[mk-app] #4129 = #4119 #4128
[instance] 0x0 #4129
[attach-enode] #4129 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4129 * #363 #186
[mk-app] #4130 + #4129 #3954
[attach-meaning] #363 arith (- 1)
[mk-app] #4129 >= #3967 #334
[inst-discovered] theory-solving 0x0 arith# ; #4127
[mk-app] #4130 = #4127 #4129
[instance] 0x0 #4130
[attach-enode] #4130 0
[end-of-instance]
[mk-app] #4130 not #4129
[mk-app] #4131 and #3987 #4130
[mk-app] #4132 not #4131
[mk-app] #4133 or #4132 #4122
[mk-app] #4134 => #4131 #4122
[inst-discovered] theory-solving 0x0 basic# ; #4134
[mk-app] #4135 = #4134 #4133
[instance] 0x0 #4135
[attach-enode] #4135 0
[end-of-instance]
[mk-app] #4134 or #4114 #4132 #4122
[mk-app] #4135 => #4101 #4133
[inst-discovered] theory-solving 0x0 basic# ; #4135
[mk-app] #4136 = #4135 #4134
[instance] 0x0 #4136
[attach-enode] #4136 0
[end-of-instance]
[mk-quant] #4133 user_vstd__seq__lemma_seq_push_index_different_0 5 #4109 #4134
[attach-var-names] #4133 (|i!| ; |Poly|) (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4127 not #4118
[mk-app] #4128 or #4127 #4133
[mk-app] #4135 => #4118 #4133
[inst-discovered] theory-solving 0x0 basic# ; #4135
[mk-app] #4136 = #4135 #4128
[instance] 0x0 #4136
[attach-enode] #4136 0
[end-of-instance]
[mk-app] #4135 fuel_bool #872
[mk-app] #4136 has_type #33 #3156
[mk-app] #4137 and #3894 #4136
[mk-app] #4138 ext_eq #2 #3156 #32 #33
[mk-app] #4139 vstd!seq.Seq.len.? #1249 #263 #33
[mk-app] #4140 = #3887 #4139
[mk-app] #4141 and #510 #4119
[mk-app] #4142 vstd!seq.Seq.index.? #1216 #1217 #32 #33
[mk-app] #4143 = #4121 #4142
[mk-app] #4144 => #4141 #4143
[mk-app] #4145 => #185 #4144
[mk-app] #4146 pattern #4121
[mk-app] #4147 pattern #4142
[mk-quant] #4148 user_vstd__seq__lemma_seq_ext_equal_0 1 #4146 #4147 #4145
[attach-var-names] #4148 (|i$| ; |Poly|)
[mk-app] #4149 and #4140 #4148
[mk-app] #4150 = #4138 #4149
[mk-app] #4151 => #3106 #4150
[mk-app] #4152 => #4137 #4151
[mk-app] #4153 pattern #4138
[mk-quant] #4154 user_vstd__seq__lemma_seq_ext_equal_1 4 #4153 #4152
[attach-var-names] #4154 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4155 => #4135 #4154
[attach-meaning] #363 arith (- 1)
[mk-app] #4156 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4156 = #510 #514
[instance] 0x0 #4156
[attach-enode] #4156 0
[end-of-instance]
[mk-app] #4156 <= #3954 #186
[mk-app] #4157 not #4156
[inst-discovered] theory-solving 0x0 arith# ; #4119
[mk-app] #4158 = #4119 #4157
[instance] 0x0 #4158
[attach-enode] #4158 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4158 * #363 #186
[mk-app] #4159 + #4158 #3954
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #4156
[mk-app] #4158 = #4156 #4129
[instance] 0x0 #4158
[attach-enode] #4158 0
[end-of-instance]
[mk-app] #4158 and #514 #4130
[mk-app] #4159 not #4158
[mk-app] #4160 or #4159 #4143
[mk-app] #4161 => #4158 #4143
[inst-discovered] theory-solving 0x0 basic# ; #4161
[mk-app] #4162 = #4161 #4160
[instance] 0x0 #4162
[attach-enode] #4162 0
[end-of-instance]
[mk-app] #4161 or #192 #4159 #4143
[mk-app] #4162 => #185 #4160
[inst-discovered] theory-solving 0x0 basic# ; #4162
[mk-app] #4163 = #4162 #4161
[instance] 0x0 #4163
[attach-enode] #4163 0
[end-of-instance]
[mk-quant] #4160 user_vstd__seq__lemma_seq_ext_equal_0 1 #4146 #4147 #4161
[attach-var-names] #4160 (|i$| ; |Poly|)
[mk-app] #4156 and #4140 #4160
[mk-app] #4157 = #4138 #4156
[mk-app] #4162 or #4044 #4157
[mk-app] #4163 => #3106 #4157
[inst-discovered] theory-solving 0x0 basic# ; #4163
[mk-app] #4164 = #4163 #4162
[instance] 0x0 #4164
[attach-enode] #4164 0
[end-of-instance]
[mk-app] #4163 not #4137
[mk-app] #4164 or #4163 #4044 #4157
[mk-app] #4165 => #4137 #4162
[inst-discovered] theory-solving 0x0 basic# ; #4165
[mk-app] #4166 = #4165 #4164
[instance] 0x0 #4166
[attach-enode] #4166 0
[end-of-instance]
[mk-quant] #4162 user_vstd__seq__lemma_seq_ext_equal_1 4 #4153 #4164
[attach-var-names] #4162 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4165 not #4135
[mk-app] #4166 or #4165 #4162
[mk-app] #4167 => #4135 #4162
[inst-discovered] theory-solving 0x0 basic# ; #4167
[mk-app] #4168 = #4167 #4166
[instance] 0x0 #4168
[attach-enode] #4168 0
[end-of-instance]
[mk-app] #4167 fuel_bool #873
[mk-app] #4168 ext_eq #1 #3156 #32 #33
[mk-app] #4169 ext_eq #1 #1217 #4121 #4142
[mk-app] #4170 => #4141 #4169
[mk-app] #4171 => #185 #4170
[mk-quant] #4172 user_vstd__seq__lemma_seq_ext_equal_deep_0 1 #4146 #4147 #4171
[attach-var-names] #4172 (|i$| ; |Poly|)
[mk-app] #4173 and #4140 #4172
[mk-app] #4174 = #4168 #4173
[mk-app] #4175 => #3106 #4174
[mk-app] #4176 => #4137 #4175
[mk-app] #4177 pattern #4168
[mk-quant] #4178 user_vstd__seq__lemma_seq_ext_equal_deep_1 4 #4177 #4176
[attach-var-names] #4178 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4179 => #4167 #4178
[attach-meaning] #363 arith (- 1)
[mk-app] #4180 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4180 = #510 #514
[instance] 0x0 #4180
[attach-enode] #4180 0
[end-of-instance]
[mk-app] #4180 <= #3954 #186
[mk-app] #4181 not #4180
[inst-discovered] theory-solving 0x0 arith# ; #4119
[mk-app] #4182 = #4119 #4181
[instance] 0x0 #4182
[attach-enode] #4182 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4182 * #363 #186
[mk-app] #4183 + #4182 #3954
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #4180
[mk-app] #4182 = #4180 #4129
[instance] 0x0 #4182
[attach-enode] #4182 0
[end-of-instance]
[mk-app] #4182 or #4159 #4169
[mk-app] #4183 => #4158 #4169
[inst-discovered] theory-solving 0x0 basic# ; #4183
[mk-app] #4184 = #4183 #4182
[instance] 0x0 #4184
[attach-enode] #4184 0
[end-of-instance]
[mk-app] #4183 or #192 #4159 #4169
[mk-app] #4184 => #185 #4182
[inst-discovered] theory-solving 0x0 basic# ; #4184
[mk-app] #4185 = #4184 #4183
[instance] 0x0 #4185
[attach-enode] #4185 0
[end-of-instance]
[mk-quant] #4182 user_vstd__seq__lemma_seq_ext_equal_deep_0 1 #4146 #4147 #4183
[attach-var-names] #4182 (|i$| ; |Poly|)
[mk-app] #4180 and #4140 #4182
[mk-app] #4181 = #4168 #4180
[mk-app] #4184 or #4044 #4181
[mk-app] #4185 => #3106 #4181
[inst-discovered] theory-solving 0x0 basic# ; #4185
[mk-app] #4186 = #4185 #4184
[instance] 0x0 #4186
[attach-enode] #4186 0
[end-of-instance]
[mk-app] #4185 or #4163 #4044 #4181
[mk-app] #4186 => #4137 #4184
[inst-discovered] theory-solving 0x0 basic# ; #4186
[mk-app] #4187 = #4186 #4185
[instance] 0x0 #4187
[attach-enode] #4187 0
[end-of-instance]
[mk-quant] #4184 user_vstd__seq__lemma_seq_ext_equal_deep_1 4 #4177 #4185
[attach-var-names] #4184 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4186 not #4167
[mk-app] #4187 or #4186 #4184
[mk-app] #4188 => #4167 #4184
[inst-discovered] theory-solving 0x0 basic# ; #4188
[mk-app] #4189 = #4188 #4187
[instance] 0x0 #4189
[attach-enode] #4189 0
[end-of-instance]
[mk-app] #4188 fuel_bool #874
[mk-app] #4189 Sub #186 #674
[mk-app] #4190 = #3989 #4189
[mk-app] #4191 => #3988 #4190
[mk-app] #4192 => #3977 #4191
[mk-app] #4193 pattern #3989
[mk-quant] #4194 user_vstd__seq__lemma_seq_subrange_len_0 5 #4193 #4192
[attach-var-names] #4194 (|k!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4195 => #4188 #4194
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #727
[mk-app] #4196 = #727 #736
[instance] 0x0 #4196
[attach-enode] #4196 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4196 * #363 #186
[mk-app] #4197 + #4196 #674
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #3955
[mk-app] #4196 = #3955 #3963
[instance] 0x0 #4196
[attach-enode] #4196 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #3957
[mk-app] #4196 = #3957 #3968
[instance] 0x0 #4196
[attach-enode] #4196 0
[end-of-instance]
[mk-app] #4196 and #3987 #736 #3963 #3968
[mk-app] #4197 and #3987 #3969
[inst-discovered] theory-solving 0x0 basic# ; #4197
[mk-app] #4198 = #4197 #4196
[instance] 0x0 #4198
[attach-enode] #4198 0
[end-of-instance]
[mk-app] #4197 not #4196
[mk-app] #4198 or #4197 #4190
[mk-app] #4199 => #4196 #4190
[inst-discovered] theory-solving 0x0 basic# ; #4199
[mk-app] #4200 = #4199 #4198
[instance] 0x0 #4200
[attach-enode] #4200 0
[end-of-instance]
[mk-app] #4199 or #3983 #4197 #4190
[mk-app] #4200 => #3977 #4198
[inst-discovered] theory-solving 0x0 basic# ; #4200
[mk-app] #4201 = #4200 #4199
[instance] 0x0 #4201
[attach-enode] #4201 0
[end-of-instance]
[mk-quant] #4198 user_vstd__seq__lemma_seq_subrange_len_0 5 #4193 #4199
[attach-var-names] #4198 (|k!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4200 not #4188
[mk-app] #4201 or #4200 #4198
[mk-app] #4202 => #4188 #4198
[inst-discovered] theory-solving 0x0 basic# ; #4202
[mk-app] #4203 = #4202 #4201
[instance] 0x0 #4203
[attach-enode] #4203 0
[end-of-instance]
[mk-app] #4202 fuel_bool #875
[mk-app] #4203 TYPE%vstd!seq.Seq. #1248 #1229
[mk-app] #4204 has_type #63 #4203
[mk-app] #4205 has_type #43 #184
[mk-app] #4206 and #4204 #4205 #3976 #185
[mk-app] #4207 vstd!seq.Seq.len.? #1248 #1229 #63
[mk-app] #4208 <= #334 #664
[mk-app] #4209 <= #664 #674
[mk-app] #4210 and #4208 #4209
[mk-app] #4211 <= #674 #4207
[mk-app] #4212 and #4210 #4211
[mk-app] #4213 and #3403 #4212
[mk-app] #4214 Sub #674 #664
[mk-app] #4215 < #186 #4214
[mk-app] #4216 and #510 #4215
[mk-app] #4217 and #4213 #4216
[mk-app] #4218 vstd!seq.Seq.subrange.? #1248 #1229 #63 #43 #32
[mk-app] #4219 vstd!seq.Seq.index.? #1248 #1229 #4218 #33
[mk-app] #4220 Add #186 #664
[mk-app] #4221 I #4220
[mk-app] #4222 vstd!seq.Seq.index.? #1248 #1229 #63 #4221
[mk-app] #4223 = #4219 #4222
[mk-app] #4224 => #4217 #4223
[mk-app] #4225 => #4206 #4224
[mk-app] #4226 pattern #4219
[mk-quant] #4227 user_vstd__seq__lemma_seq_subrange_index_0 6 #4226 #4225
[attach-var-names] #4227 (|i!| ; |Poly|) (|k!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4228 => #4202 #4227
[attach-meaning] #363 arith (- 1)
[mk-app] #4229 >= #664 #334
[inst-discovered] theory-solving 0x0 arith# ; #4208
[mk-app] #4230 = #4208 #4229
[instance] 0x0 #4230
[attach-enode] #4230 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4230 + #664 #3965
[mk-app] #4231 <= #4230 #334
[inst-discovered] theory-solving 0x0 arith# ; #4209
[mk-app] #4232 = #4209 #4231
[instance] 0x0 #4232
[attach-enode] #4232 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4232 * #363 #4207
[mk-app] #4233 + #674 #4232
[mk-app] #4234 <= #4233 #334
[inst-discovered] theory-solving 0x0 arith# ; #4211
[mk-app] #4235 = #4211 #4234
[instance] 0x0 #4235
[attach-enode] #4235 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4235 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4235 = #510 #514
[instance] 0x0 #4235
[attach-enode] #4235 0
[end-of-instance]
[mk-app] #4235 <= #4214 #186
[mk-app] #4236 not #4235
[inst-discovered] theory-solving 0x0 arith# ; #4215
[mk-app] #4237 = #4215 #4236
[instance] 0x0 #4237
[attach-enode] #4237 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4237 * #363 #186
[mk-app] #4238 + #4237 #4214
[attach-meaning] #363 arith (- 1)
[mk-app] #4239 * #363 #4214
[mk-app] #4240 + #186 #4239
[mk-app] #4237 >= #4240 #334
[inst-discovered] theory-solving 0x0 arith# ; #4235
[mk-app] #4238 = #4235 #4237
[instance] 0x0 #4238
[attach-enode] #4238 0
[end-of-instance]
[mk-app] #4238 not #4237
[mk-app] #4241 and #3403 #4229 #4231 #4234 #514 #4238
[mk-app] #4242 not #4241
[mk-app] #4243 or #4242 #4223
[mk-app] #4244 => #4241 #4223
[inst-discovered] theory-solving 0x0 basic# ; #4244
[mk-app] #4245 = #4244 #4243
[instance] 0x0 #4245
[attach-enode] #4245 0
[end-of-instance]
[mk-app] #4244 not #4206
[mk-app] #4245 or #4244 #4242 #4223
[mk-app] #4246 => #4206 #4243
[inst-discovered] theory-solving 0x0 basic# ; #4246
[mk-app] #4247 = #4246 #4245
[instance] 0x0 #4247
[attach-enode] #4247 0
[end-of-instance]
[mk-quant] #4243 user_vstd__seq__lemma_seq_subrange_index_0 6 #4226 #4245
[attach-var-names] #4243 (|i!| ; |Poly|) (|k!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4235 not #4202
[mk-app] #4236 or #4235 #4243
[mk-app] #4246 => #4202 #4243
[inst-discovered] theory-solving 0x0 basic# ; #4246
[mk-app] #4247 = #4246 #4236
[instance] 0x0 #4247
[attach-enode] #4247 0
[end-of-instance]
[mk-app] #4246 fuel_bool #876
[mk-var] #4247 4
[mk-app] #4248 TYPE%vstd!seq.Seq. #1271 #1272
[mk-app] #4249 has_type #4247 #4248
[mk-app] #4250 has_type #63 #184
[mk-app] #4251 and #4249 #4250 #4205 #3976 #185
[mk-app] #4252 sized #1271
[mk-app] #4253 %I #63
[mk-app] #4254 vstd!seq.Seq.len.? #1271 #1272 #4247
[mk-app] #4255 <= #334 #4253
[mk-app] #4256 <= #4253 #664
[mk-app] #4257 and #4255 #4256
[mk-app] #4258 <= #664 #4254
[mk-app] #4259 and #4257 #4258
[mk-app] #4260 and #4252 #4259
[mk-app] #4261 <= #4253 #674
[mk-app] #4262 and #4255 #4261
[mk-app] #4263 <= #674 #4254
[mk-app] #4264 and #4262 #4263
[mk-app] #4265 and #4260 #4264
[mk-app] #4266 Sub #664 #4253
[mk-app] #4267 < #186 #4266
[mk-app] #4268 and #510 #4267
[mk-app] #4269 and #4265 #4268
[mk-app] #4270 Sub #674 #4253
[mk-app] #4271 < #186 #4270
[mk-app] #4272 and #510 #4271
[mk-app] #4273 and #4269 #4272
[mk-app] #4274 vstd!seq.Seq.subrange.? #1271 #1272 #4247 #63 #43
[mk-app] #4275 vstd!seq.Seq.index.? #1271 #1272 #4274 #33
[mk-app] #4276 vstd!seq.Seq.subrange.? #1271 #1272 #4247 #63 #32
[mk-app] #4277 vstd!seq.Seq.index.? #1271 #1272 #4276 #33
[mk-app] #4278 = #4275 #4277
[mk-app] #4279 => #4273 #4278
[mk-app] #4280 => #4251 #4279
[mk-app] #4281 pattern #4275 #4276
[mk-quant] #4282 user_vstd__seq__lemma_seq_two_subranges_index_0 7 #4281 #4280
[attach-var-names] #4282 (|i!| ; |Poly|) (|k2!| ; |Poly|) (|k1!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4283 => #4246 #4282
[attach-meaning] #363 arith (- 1)
[mk-app] #4284 * #363 #4253
[mk-app] #4285 >= #4253 #334
[inst-discovered] theory-solving 0x0 arith# ; #4255
[mk-app] #4284 = #4255 #4285
[instance] 0x0 #4284
[attach-enode] #4284 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4284 + #4069 #4253
[attach-meaning] #363 arith (- 1)
[mk-app] #4286 * #363 #4253
[mk-app] #4287 + #664 #4286
[mk-app] #4284 >= #4287 #334
[inst-discovered] theory-solving 0x0 arith# ; #4256
[mk-app] #4288 = #4256 #4284
[instance] 0x0 #4288
[attach-enode] #4288 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4288 * #363 #4254
[mk-app] #4289 + #664 #4288
[mk-app] #4290 <= #4289 #334
[inst-discovered] theory-solving 0x0 arith# ; #4258
[mk-app] #4291 = #4258 #4290
[instance] 0x0 #4291
[attach-enode] #4291 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4291 + #3965 #4253
[attach-meaning] #363 arith (- 1)
[mk-app] #4292 + #674 #4286
[mk-app] #4291 >= #4292 #334
[inst-discovered] theory-solving 0x0 arith# ; #4261
[mk-app] #4293 = #4261 #4291
[instance] 0x0 #4293
[attach-enode] #4293 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4293 + #674 #4288
[mk-app] #4294 <= #4293 #334
[inst-discovered] theory-solving 0x0 arith# ; #4263
[mk-app] #4295 = #4263 #4294
[instance] 0x0 #4295
[attach-enode] #4295 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4295 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4295 = #510 #514
[instance] 0x0 #4295
[attach-enode] #4295 0
[end-of-instance]
[mk-app] #4295 <= #4266 #186
[mk-app] #4296 not #4295
[inst-discovered] theory-solving 0x0 arith# ; #4267
[mk-app] #4297 = #4267 #4296
[instance] 0x0 #4297
[attach-enode] #4297 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4297 * #363 #186
[mk-app] #4298 + #4297 #4266
[attach-meaning] #363 arith (- 1)
[mk-app] #4299 * #363 #4266
[mk-app] #4300 + #186 #4299
[mk-app] #4297 >= #4300 #334
[inst-discovered] theory-solving 0x0 arith# ; #4295
[mk-app] #4298 = #4295 #4297
[instance] 0x0 #4298
[attach-enode] #4298 0
[end-of-instance]
[mk-app] #4298 not #4297
[mk-app] #4301 <= #4270 #186
[mk-app] #4302 not #4301
[inst-discovered] theory-solving 0x0 arith# ; #4271
[mk-app] #4303 = #4271 #4302
[instance] 0x0 #4303
[attach-enode] #4303 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4303 * #363 #186
[mk-app] #4304 + #4303 #4270
[attach-meaning] #363 arith (- 1)
[mk-app] #4305 * #363 #4270
[mk-app] #4306 + #186 #4305
[mk-app] #4303 >= #4306 #334
[inst-discovered] theory-solving 0x0 arith# ; #4301
[mk-app] #4304 = #4301 #4303
[instance] 0x0 #4304
[attach-enode] #4304 0
[end-of-instance]
[mk-app] #4304 not #4303
[mk-app] #4307 and #4252 #4285 #4284 #4290 #4291 #4294 #514 #4298 #4304
[mk-app] #4308 and #4252 #4285 #4284 #4290 #4285 #4291 #4294 #514 #4298 #514 #4304
[inst-discovered] theory-solving 0x0 basic# ; #4308
[mk-app] #4309 = #4308 #4307
[instance] 0x0 #4309
[attach-enode] #4309 0
[end-of-instance]
[mk-app] #4308 not #4307
[mk-app] #4309 or #4308 #4278
[mk-app] #4310 => #4307 #4278
[inst-discovered] theory-solving 0x0 basic# ; #4310
[mk-app] #4311 = #4310 #4309
[instance] 0x0 #4311
[attach-enode] #4311 0
[end-of-instance]
[mk-app] #4310 not #4251
[mk-app] #4311 or #4310 #4308 #4278
[mk-app] #4312 => #4251 #4309
[inst-discovered] theory-solving 0x0 basic# ; #4312
[mk-app] #4313 = #4312 #4311
[instance] 0x0 #4313
[attach-enode] #4313 0
[end-of-instance]
[mk-quant] #4309 user_vstd__seq__lemma_seq_two_subranges_index_0 7 #4281 #4311
[attach-var-names] #4309 (|i!| ; |Poly|) (|k2!| ; |Poly|) (|k1!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4301 not #4246
[mk-app] #4302 or #4301 #4309
[mk-app] #4295 => #4246 #4309
[inst-discovered] theory-solving 0x0 basic# ; #4295
[mk-app] #4296 = #4295 #4302
[instance] 0x0 #4296
[attach-enode] #4296 0
[end-of-instance]
[mk-app] #4295 vstd!seq.Seq.add.? #1249 #263 #32 #33
[mk-app] #4296 has_type #4295 #3156
[mk-app] #4312 => #4137 #4296
[mk-app] #4313 pattern #4295
[mk-quant] #4314 internal_vstd!seq.Seq.add.?_pre_post_definition 4 #4313 #4312
[attach-var-names] #4314 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4315 or #4163 #4296
[inst-discovered] theory-solving 0x0 basic# ; #4312
[mk-app] #4316 = #4312 #4315
[instance] 0x0 #4316
[attach-enode] #4316 0
[end-of-instance]
[mk-quant] #4316 internal_vstd!seq.Seq.add.?_pre_post_definition 4 #4313 #4315
[attach-var-names] #4316 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4317 fuel_bool #877
[mk-app] #4318 vstd!seq.Seq.len.? #1249 #263 #4295
[mk-app] #4319 Add #3887 #4139
[mk-app] #4320 nClip #4319
[mk-app] #4321 = #4318 #4320
[mk-app] #4322 => #3106 #4321
[mk-app] #4323 => #4137 #4322
[mk-app] #4324 pattern #4318
[mk-quant] #4325 user_vstd__seq__lemma_seq_add_len_0 4 #4324 #4323
[attach-var-names] #4325 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4326 => #4317 #4325
[mk-app] #4327 or #4044 #4321
[inst-discovered] theory-solving 0x0 basic# ; #4322
[mk-app] #4328 = #4322 #4327
[instance] 0x0 #4328
[attach-enode] #4328 0
[end-of-instance]
[mk-app] #4328 or #4163 #4044 #4321
[mk-app] #4329 => #4137 #4327
[inst-discovered] theory-solving 0x0 basic# ; #4329
[mk-app] #4330 = #4329 #4328
[instance] 0x0 #4330
[attach-enode] #4330 0
[end-of-instance]
[mk-quant] #4327 user_vstd__seq__lemma_seq_add_len_0 4 #4324 #4328
[attach-var-names] #4327 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4329 not #4317
[mk-app] #4330 or #4329 #4327
[mk-app] #4331 => #4317 #4327
[inst-discovered] theory-solving 0x0 basic# ; #4331
[mk-app] #4332 = #4331 #4330
[instance] 0x0 #4332
[attach-enode] #4332 0
[end-of-instance]
[mk-app] #4331 fuel_bool #878
[mk-app] #4332 has_type #32 #3974
[mk-app] #4333 and #3975 #4332 #185
[mk-app] #4334 vstd!seq.Seq.add.? #1216 #1217 #43 #32
[mk-app] #4335 vstd!seq.Seq.index.? #1216 #1217 #4334 #33
[mk-app] #4336 = #4335 #4121
[mk-app] #4337 => #4120 #4336
[mk-app] #4338 => #4333 #4337
[mk-app] #4339 pattern #4335
[mk-quant] #4340 user_vstd__seq__lemma_seq_add_index1_0 5 #4339 #4338
[attach-var-names] #4340 (|i!| ; |Poly|) (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4341 => #4331 #4340
[mk-app] #4342 <= #3954 #186
[mk-app] #4343 not #4342
[inst-discovered] theory-solving 0x0 arith# ; #4119
[mk-app] #4344 = #4119 #4343
[instance] 0x0 #4344
[attach-enode] #4344 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4344 * #363 #186
[mk-app] #4345 + #4344 #3954
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #4342
[mk-app] #4344 = #4342 #4129
[instance] 0x0 #4344
[attach-enode] #4344 0
[end-of-instance]
[mk-app] #4344 or #4132 #4336
[mk-app] #4345 => #4131 #4336
[inst-discovered] theory-solving 0x0 basic# ; #4345
[mk-app] #4346 = #4345 #4344
[instance] 0x0 #4346
[attach-enode] #4346 0
[end-of-instance]
[mk-app] #4345 not #4333
[mk-app] #4346 or #4345 #4132 #4336
[mk-app] #4347 => #4333 #4344
[inst-discovered] theory-solving 0x0 basic# ; #4347
[mk-app] #4348 = #4347 #4346
[instance] 0x0 #4348
[attach-enode] #4348 0
[end-of-instance]
[mk-quant] #4344 user_vstd__seq__lemma_seq_add_index1_0 5 #4339 #4346
[attach-var-names] #4344 (|i!| ; |Poly|) (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4342 not #4331
[mk-app] #4343 or #4342 #4344
[mk-app] #4347 => #4331 #4344
[inst-discovered] theory-solving 0x0 basic# ; #4347
[mk-app] #4348 = #4347 #4343
[instance] 0x0 #4348
[attach-enode] #4348 0
[end-of-instance]
[mk-app] #4347 fuel_bool #879
[mk-app] #4348 vstd!seq.Seq.len.? #1216 #1217 #32
[mk-app] #4349 Add #3954 #4348
[mk-app] #4350 nClip #4349
[mk-app] #4351 <= #3954 #186
[mk-app] #4352 < #186 #4350
[mk-app] #4353 and #4351 #4352
[mk-app] #4354 and #3987 #4353
[mk-app] #4355 Sub #186 #3954
[mk-app] #4356 I #4355
[mk-app] #4357 vstd!seq.Seq.index.? #1216 #1217 #32 #4356
[mk-app] #4358 = #4335 #4357
[mk-app] #4359 => #4354 #4358
[mk-app] #4360 => #4333 #4359
[mk-quant] #4361 user_vstd__seq__lemma_seq_add_index2_0 5 #4339 #4360
[attach-var-names] #4361 (|i!| ; |Poly|) (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4362 => #4347 #4361
[attach-meaning] #363 arith (- 1)
[mk-app] #4363 * #363 #186
[mk-app] #4364 + #4363 #3954
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #4351
[mk-app] #4363 = #4351 #4129
[instance] 0x0 #4363
[attach-enode] #4363 0
[end-of-instance]
[mk-app] #4363 <= #4350 #186
[mk-app] #4364 not #4363
[inst-discovered] theory-solving 0x0 arith# ; #4352
[mk-app] #4365 = #4352 #4364
[instance] 0x0 #4365
[attach-enode] #4365 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4365 * #363 #186
[mk-app] #4366 + #4365 #4350
[attach-meaning] #363 arith (- 1)
[mk-app] #4367 * #363 #4350
[mk-app] #4368 + #186 #4367
[mk-app] #4365 >= #4368 #334
[inst-discovered] theory-solving 0x0 arith# ; #4363
[mk-app] #4366 = #4363 #4365
[instance] 0x0 #4366
[attach-enode] #4366 0
[end-of-instance]
[mk-app] #4366 not #4365
[mk-app] #4369 and #3987 #4129 #4366
[mk-app] #4370 not #4369
[mk-app] #4371 or #4370 #4358
[mk-app] #4372 => #4369 #4358
[inst-discovered] theory-solving 0x0 basic# ; #4372
[mk-app] #4373 = #4372 #4371
[instance] 0x0 #4373
[attach-enode] #4373 0
[end-of-instance]
[mk-app] #4372 or #4345 #4370 #4358
[mk-app] #4373 => #4333 #4371
[inst-discovered] theory-solving 0x0 basic# ; #4373
[mk-app] #4374 = #4373 #4372
[instance] 0x0 #4374
[attach-enode] #4374 0
[end-of-instance]
[mk-quant] #4371 user_vstd__seq__lemma_seq_add_index2_0 5 #4339 #4372
[attach-var-names] #4371 (|i!| ; |Poly|) (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4363 not #4347
[mk-app] #4364 or #4363 #4371
[mk-app] #4373 => #4347 #4371
[inst-discovered] theory-solving 0x0 basic# ; #4373
[mk-app] #4374 = #4373 #4364
[instance] 0x0 #4374
[attach-enode] #4374 0
[end-of-instance]
[mk-app] #4373 fuel_bool_default #862
[mk-app] #4374 fuel_bool #862
[mk-app] #4375 vstd!seq.impl&%2.spec_add.? #1249 #263 #32 #33
[mk-app] #4376 = #4375 #4295
[mk-app] #4377 pattern #4375
[mk-quant] #4378 internal_vstd!seq.impl&__2.spec_add.?_definition 4 #4377 #4376
[attach-var-names] #4378 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4379 => #4374 #4378
[mk-app] #4380 not #4374
[mk-app] #4381 or #4380 #4378
[inst-discovered] theory-solving 0x0 basic# ; #4379
[mk-app] #4382 = #4379 #4381
[instance] 0x0 #4382
[attach-enode] #4382 0
[end-of-instance]
[mk-app] #4382 has_type #4375 #3156
[mk-app] #4383 => #4137 #4382
[mk-quant] #4384 internal_vstd!seq.impl&__2.spec_add.?_pre_post_definition 4 #4377 #4383
[attach-var-names] #4384 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4385 or #4163 #4382
[inst-discovered] theory-solving 0x0 basic# ; #4383
[mk-app] #4386 = #4383 #4385
[instance] 0x0 #4386
[attach-enode] #4386 0
[end-of-instance]
[mk-quant] #4386 internal_vstd!seq.impl&__2.spec_add.?_pre_post_definition 4 #4377 #4385
[attach-var-names] #4386 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4387 fuel_bool #882
[mk-app] #4388 = #3887 #334
[mk-app] #4389 and #3106 #4388
[mk-app] #4390 = #4295 #33
[mk-app] #4391 => #4389 #4390
[mk-app] #4392 => #4137 #4391
[mk-quant] #4393 user_vstd__seq_lib__impl&%0__add_empty_left_0 4 #4313 #4392
[attach-var-names] #4393 (|b!| ; |Poly|) (|a!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4394 => #4387 #4393
[mk-app] #4395 not #4389
[mk-app] #4396 or #4395 #4390
[inst-discovered] theory-solving 0x0 basic# ; #4391
[mk-app] #4397 = #4391 #4396
[instance] 0x0 #4397
[attach-enode] #4397 0
[end-of-instance]
[mk-app] #4397 or #4163 #4395 #4390
[mk-app] #4398 => #4137 #4396
[inst-discovered] theory-solving 0x0 basic# ; #4398
[mk-app] #4399 = #4398 #4397
[instance] 0x0 #4399
[attach-enode] #4399 0
[end-of-instance]
[mk-quant] #4396 user_vstd__seq_lib__impl&%0__add_empty_left_0 4 #4313 #4397
[attach-var-names] #4396 (|b!| ; |Poly|) (|a!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4398 not #4387
[mk-app] #4399 or #4398 #4396
[mk-app] #4400 => #4387 #4396
[inst-discovered] theory-solving 0x0 basic# ; #4400
[mk-app] #4401 = #4400 #4399
[instance] 0x0 #4401
[attach-enode] #4401 0
[end-of-instance]
[mk-app] #4400 fuel_bool #883
[mk-app] #4401 = #4139 #334
[mk-app] #4402 and #3106 #4401
[mk-app] #4403 = #4295 #32
[mk-app] #4404 => #4402 #4403
[mk-app] #4405 => #4137 #4404
[mk-quant] #4406 user_vstd__seq_lib__impl&%0__add_empty_right_0 4 #4313 #4405
[attach-var-names] #4406 (|b!| ; |Poly|) (|a!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4407 => #4400 #4406
[mk-app] #4408 not #4402
[mk-app] #4409 or #4408 #4403
[inst-discovered] theory-solving 0x0 basic# ; #4404
[mk-app] #4410 = #4404 #4409
[instance] 0x0 #4410
[attach-enode] #4410 0
[end-of-instance]
[mk-app] #4410 or #4163 #4408 #4403
[mk-app] #4411 => #4137 #4409
[inst-discovered] theory-solving 0x0 basic# ; #4411
[mk-app] #4412 = #4411 #4410
[instance] 0x0 #4412
[attach-enode] #4412 0
[end-of-instance]
[mk-quant] #4409 user_vstd__seq_lib__impl&%0__add_empty_right_0 4 #4313 #4410
[attach-var-names] #4409 (|b!| ; |Poly|) (|a!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4411 not #4400
[mk-app] #4412 or #4411 #4409
[mk-app] #4413 => #4400 #4409
[inst-discovered] theory-solving 0x0 basic# ; #4413
[mk-app] #4414 = #4413 #4412
[instance] 0x0 #4414
[attach-enode] #4414 0
[end-of-instance]
[mk-app] #4413 fuel_bool #884
[mk-app] #4414 and #3975 #4332 #1803
[mk-app] #4415 vstd!seq.Seq.push.? #1216 #1217 #4334 #33
[mk-app] #4416 vstd!seq.Seq.push.? #1216 #1217 #32 #33
[mk-app] #4417 vstd!seq.Seq.add.? #1216 #1217 #43 #4416
[mk-app] #4418 = #4415 #4417
[mk-app] #4419 => #3987 #4418
[mk-app] #4420 => #4414 #4419
[mk-app] #4421 pattern #4415
[mk-quant] #4422 user_vstd__seq_lib__impl&%0__push_distributes_over_add_0 5 #4421 #4420
[attach-var-names] #4422 (|elt!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4423 => #4413 #4422
[mk-app] #4424 not #3987
[mk-app] #4425 or #4424 #4418
[inst-discovered] theory-solving 0x0 basic# ; #4419
[mk-app] #4426 = #4419 #4425
[instance] 0x0 #4426
[attach-enode] #4426 0
[end-of-instance]
[mk-app] #4426 not #4414
[mk-app] #4427 or #4426 #4424 #4418
[mk-app] #4428 => #4414 #4425
[inst-discovered] theory-solving 0x0 basic# ; #4428
[mk-app] #4429 = #4428 #4427
[instance] 0x0 #4429
[attach-enode] #4429 0
[end-of-instance]
[mk-quant] #4425 user_vstd__seq_lib__impl&%0__push_distributes_over_add_0 5 #4421 #4427
[attach-var-names] #4425 (|elt!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4428 not #4413
[mk-app] #4429 or #4428 #4425
[mk-app] #4430 => #4413 #4425
[inst-discovered] theory-solving 0x0 basic# ; #4430
[mk-app] #4431 = #4430 #4429
[instance] 0x0 #4431
[attach-enode] #4431 0
[end-of-instance]
[mk-app] #4430 tr_bound%core!ops.function.FnOnce. #120 #46 #1249 #263
[mk-app] #4431 => #3387 #4430
[mk-app] #4432 pattern #4430
[mk-quant] #4433 internal_core__ops__function__impls__impl&__4_trait_impl_definition 4 #4432 #4431
[attach-var-names] #4433 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4434 or #3393 #4430
[inst-discovered] theory-solving 0x0 basic# ; #4431
[mk-app] #4435 = #4431 #4434
[instance] 0x0 #4435
[attach-enode] #4435 0
[end-of-instance]
[mk-quant] #4435 internal_core__ops__function__impls__impl&__4_trait_impl_definition 4 #4432 #4434
[attach-var-names] #4435 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #4436 fuel_bool #854
[mk-app] #4437 has_type #32 #3581
[mk-app] #4438 and #4437 #1230
[mk-app] #4439 and #3403 #3106
[mk-app] #4440 and #4439 #3404
[mk-app] #4441 tr_bound%core!ops.function.FnMut. #1249 #263 #1248 #1229
[mk-app] #4442 and #4440 #4441
[mk-app] #4443 mut_ref_current% #32
[mk-app] #4444 closure_req #263 #1248 #1229 #4443 #33
[mk-app] #4445 and #4442 #4444
[mk-app] #4446 closure_req #3581 #1248 #1229 #32 #33
[mk-app] #4447 => #4445 #4446
[mk-app] #4448 => #4438 #4447
[mk-app] #4449 pattern #4446
[mk-quant] #4450 user_vstd__function__axiom_fn_mut_call_requires_0 6 #4449 #4448
[attach-var-names] #4450 (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #4451 => #4436 #4450
[mk-app] #4452 and #3403 #3106 #3404 #4441 #4444
[mk-app] #4453 not #4452
[mk-app] #4454 or #4453 #4446
[mk-app] #4455 => #4452 #4446
[inst-discovered] theory-solving 0x0 basic# ; #4455
[mk-app] #4456 = #4455 #4454
[instance] 0x0 #4456
[attach-enode] #4456 0
[end-of-instance]
[mk-app] #4455 not #4438
[mk-app] #4456 or #4455 #4453 #4446
[mk-app] #4457 => #4438 #4454
[inst-discovered] theory-solving 0x0 basic# ; #4457
[mk-app] #4458 = #4457 #4456
[instance] 0x0 #4458
[attach-enode] #4458 0
[end-of-instance]
[mk-quant] #4454 user_vstd__function__axiom_fn_mut_call_requires_0 6 #4449 #4456
[attach-var-names] #4454 (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #4457 not #4436
[mk-app] #4458 or #4457 #4454
[mk-app] #4459 => #4436 #4454
[inst-discovered] theory-solving 0x0 basic# ; #4459
[mk-app] #4460 = #4459 #4458
[instance] 0x0 #4460
[attach-enode] #4460 0
[end-of-instance]
[mk-app] #4459 fuel_bool #855
[mk-app] #4460 MUTREF #1216 #1217
[mk-app] #4461 has_type #43 #4460
[mk-app] #4462 has_type #32 #1272
[mk-app] #4463 proj%core!ops.function.FnOnce./Output #1216 #1217 #1271 #1272
[mk-app] #4464 has_type #33 #4463
[mk-app] #4465 and #4461 #4462 #4464
[mk-app] #4466 and #4252 #3987
[mk-app] #4467 tr_bound%core!marker.Tuple. #1271 #1272
[mk-app] #4468 and #4466 #4467
[mk-app] #4469 tr_bound%core!ops.function.FnMut. #1216 #1217 #1271 #1272
[mk-app] #4470 and #4468 #4469
[mk-app] #4471 closure_ens #4460 #1271 #1272 #43 #32 #33
[mk-app] #4472 and #4470 #4471
[mk-app] #4473 closure_ens #1217 #1271 #1272 #48 #32 #33
[mk-app] #4474 = #48 #56
[mk-app] #4475 and #4473 #4474
[mk-app] #4476 => #4472 #4475
[mk-app] #4477 => #4465 #4476
[mk-app] #4478 pattern #4471
[mk-quant] #4479 user_vstd__function__axiom_fn_mut_call_ensures_0 7 #4478 #4477
[attach-var-names] #4479 (|output!| ; |Poly|) (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #4480 => #4459 #4479
[mk-app] #4481 and #4252 #3987 #4467 #4469 #4471
[mk-app] #4482 not #4481
[mk-app] #4483 or #4482 #4475
[mk-app] #4484 => #4481 #4475
[inst-discovered] theory-solving 0x0 basic# ; #4484
[mk-app] #4485 = #4484 #4483
[instance] 0x0 #4485
[attach-enode] #4485 0
[end-of-instance]
[mk-app] #4484 not #4465
[mk-app] #4485 or #4484 #4482 #4475
[mk-app] #4486 => #4465 #4483
[inst-discovered] theory-solving 0x0 basic# ; #4486
[mk-app] #4487 = #4486 #4485
[instance] 0x0 #4487
[attach-enode] #4487 0
[end-of-instance]
[mk-quant] #4483 user_vstd__function__axiom_fn_mut_call_ensures_0 7 #4478 #4485
[attach-var-names] #4483 (|output!| ; |Poly|) (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #4486 not #4459
[mk-app] #4487 or #4486 #4483
[mk-app] #4488 => #4459 #4483
[inst-discovered] theory-solving 0x0 basic# ; #4488
[mk-app] #4489 = #4488 #4487
[instance] 0x0 #4489
[attach-enode] #4489 0
[end-of-instance]
[mk-app] #4488 SLICE #64 #65
[mk-app] #4489 has_type #33 #4488
[mk-app] #4490 vstd!slice.spec_slice_len.? #64 #65 #33
[mk-app] #4491 uInv #269 #4490
[mk-app] #4492 => #4489 #4491
[mk-app] #4493 pattern #4490
[mk-quant] #4494 internal_vstd!slice.spec_slice_len.?_pre_post_definition 3 #4493 #4492
[attach-var-names] #4494 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4495 not #4489
[mk-app] #4496 or #4495 #4491
[inst-discovered] theory-solving 0x0 basic# ; #4492
[mk-app] #4497 = #4492 #4496
[instance] 0x0 #4497
[attach-enode] #4497 0
[end-of-instance]
[mk-quant] #4497 internal_vstd!slice.spec_slice_len.?_pre_post_definition 3 #4493 #4496
[attach-var-names] #4497 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4498 vstd!view.View.view.? #64 #65 #33
[mk-app] #4499 proj%vstd!view.View./V #64 #65
[mk-app] #4500 has_type #4498 #4499
[mk-app] #4501 => #68 #4500
[mk-app] #4502 pattern #4498
[mk-quant] #4503 internal_vstd!view.View.view.?_pre_post_definition 3 #4502 #4501
[attach-var-names] #4503 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #4504 or #1726 #4500
[inst-discovered] theory-solving 0x0 basic# ; #4501
[mk-app] #4505 = #4501 #4504
[instance] 0x0 #4505
[attach-enode] #4505 0
[end-of-instance]
[mk-quant] #4505 internal_vstd!view.View.view.?_pre_post_definition 3 #4502 #4504
[attach-var-names] #4505 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #4506 tr_bound%vstd!view.View. #1198 #3182
[mk-app] #4507 => #2967 #4506
[mk-app] #4508 pattern #4506
[mk-quant] #4509 internal_vstd__slice__impl&__0_trait_impl_definition 2 #4508 #4507
[attach-var-names] #4509 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4510 or #3188 #4506
[inst-discovered] theory-solving 0x0 basic# ; #4507
[mk-app] #4511 = #4507 #4510
[instance] 0x0 #4511
[attach-enode] #4511 0
[end-of-instance]
[mk-quant] #4511 internal_vstd__slice__impl&__0_trait_impl_definition 2 #4508 #4510
[attach-var-names] #4511 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4512 fuel_bool #889
[mk-app] #4513 sized #64
[mk-app] #4514 vstd!view.View.view.? #1198 #4488 #33
[mk-app] #4515 vstd!seq.Seq.len.? #64 #65 #4514
[mk-app] #4516 = #4490 #4515
[mk-app] #4517 => #4513 #4516
[mk-app] #4518 => #4489 #4517
[mk-quant] #4519 user_vstd__slice__axiom_spec_len_0 3 #4493 #4518
[attach-var-names] #4519 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4520 => #4512 #4519
[mk-app] #4521 not #4513
[mk-app] #4522 or #4521 #4516
[inst-discovered] theory-solving 0x0 basic# ; #4517
[mk-app] #4523 = #4517 #4522
[instance] 0x0 #4523
[attach-enode] #4523 0
[end-of-instance]
[mk-app] #4523 or #4495 #4521 #4516
[mk-app] #4524 => #4489 #4522
[inst-discovered] theory-solving 0x0 basic# ; #4524
[mk-app] #4525 = #4524 #4523
[instance] 0x0 #4525
[attach-enode] #4525 0
[end-of-instance]
[mk-quant] #4522 user_vstd__slice__axiom_spec_len_0 3 #4493 #4523
[attach-var-names] #4522 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4524 not #4512
[mk-app] #4525 or #4524 #4522
[mk-app] #4526 => #4512 #4522
[inst-discovered] theory-solving 0x0 basic# ; #4526
[mk-app] #4527 = #4526 #4525
[instance] 0x0 #4527
[attach-enode] #4527 0
[end-of-instance]
[mk-app] #4526 fuel_bool_default #890
[mk-app] #4527 fuel_bool #890
[mk-app] #4528 vstd!slice.len%returns_clause_autospec.? #64 #65 #33
[mk-app] #4529 = #4528 #4490
[mk-app] #4530 pattern #4528
[mk-quant] #4531 internal_vstd!slice.len__returns_clause_autospec.?_definition 3 #4530 #4529
[attach-var-names] #4531 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4532 => #4527 #4531
[mk-app] #4533 not #4527
[mk-app] #4534 or #4533 #4531
[inst-discovered] theory-solving 0x0 basic# ; #4532
[mk-app] #4535 = #4532 #4534
[instance] 0x0 #4535
[attach-enode] #4535 0
[end-of-instance]
[mk-app] #4535 uInv #269 #4528
[mk-app] #4536 => #4489 #4535
[mk-quant] #4537 internal_vstd!slice.len__returns_clause_autospec.?_pre_post_definition 3 #4530 #4536
[attach-var-names] #4537 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4538 or #4495 #4535
[inst-discovered] theory-solving 0x0 basic# ; #4536
[mk-app] #4539 = #4536 #4538
[instance] 0x0 #4539
[attach-enode] #4539 0
[end-of-instance]
[mk-quant] #4539 internal_vstd!slice.len__returns_clause_autospec.?_pre_post_definition 3 #4530 #4538
[attach-var-names] #4539 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4540 req%vstd!slice.SliceAdditionalSpecFns.spec_index. #1248 #1229 #1249 #263 #32 #33
[mk-app] #4541 %%global_location_label%%3
[mk-app] #4542 vstd!view.View.view.? #1248 #1229 #32
[mk-app] #4543 vstd!seq.Seq.len.? #1249 #263 #4542
[mk-app] #4544 < #186 #4543
[mk-app] #4545 and #510 #4544
[mk-app] #4546 => #4541 #4545
[mk-app] #4547 = #4540 #4546
[mk-app] #4548 pattern #4540
[mk-quant] #4549 internal_req__vstd!slice.SliceAdditionalSpecFns.spec_index._definition 6 #4548 #4547
[attach-var-names] #4549 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[attach-meaning] #363 arith (- 1)
[mk-app] #4550 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4550 = #510 #514
[instance] 0x0 #4550
[attach-enode] #4550 0
[end-of-instance]
[mk-app] #4550 <= #4543 #186
[mk-app] #4551 not #4550
[inst-discovered] theory-solving 0x0 arith# ; #4544
[mk-app] #4552 = #4544 #4551
[instance] 0x0 #4552
[attach-enode] #4552 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4552 * #363 #186
[mk-app] #4553 + #4552 #4543
[attach-meaning] #363 arith (- 1)
[mk-app] #4554 * #363 #4543
[mk-app] #4555 + #186 #4554
[mk-app] #4552 >= #4555 #334
[inst-discovered] theory-solving 0x0 arith# ; #4550
[mk-app] #4553 = #4550 #4552
[instance] 0x0 #4553
[attach-enode] #4553 0
[end-of-instance]
[mk-app] #4553 not #4552
[mk-app] #4556 and #514 #4553
[mk-app] #4557 not #4541
[mk-app] #4558 or #4557 #4556
[mk-app] #4559 => #4541 #4556
[inst-discovered] theory-solving 0x0 basic# ; #4559
[mk-app] #4560 = #4559 #4558
[instance] 0x0 #4560
[attach-enode] #4560 0
[end-of-instance]
[mk-app] #4559 = #4540 #4558
[mk-quant] #4560 internal_req__vstd!slice.SliceAdditionalSpecFns.spec_index._definition 6 #4548 #4559
[attach-var-names] #4560 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #4550 and #1252 #185
[mk-app] #4551 vstd!slice.SliceAdditionalSpecFns.spec_index.? #1248 #1229 #1249 #263 #32 #33
[mk-app] #4561 has_type #4551 #263
[mk-app] #4562 => #4550 #4561
[mk-app] #4563 pattern #4551
[mk-quant] #4564 internal_vstd!slice.SliceAdditionalSpecFns.spec_index.?_pre_post_definition 6 #4563 #4562
[attach-var-names] #4564 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #4565 not #4550
[mk-app] #4566 or #4565 #4561
[inst-discovered] theory-solving 0x0 basic# ; #4562
[mk-app] #4567 = #4562 #4566
[instance] 0x0 #4567
[attach-enode] #4567 0
[end-of-instance]
[mk-quant] #4567 internal_vstd!slice.SliceAdditionalSpecFns.spec_index.?_pre_post_definition 6 #4563 #4566
[attach-var-names] #4567 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #4568 fuel_bool_default #888
[mk-app] #4569 fuel_bool #888
[mk-app] #4570 vstd!slice.SliceAdditionalSpecFns.spec_index.? #1198 #3515 #1249 #263 #32 #33
[mk-app] #4571 vstd!view.View.view.? #1198 #3515 #32
[mk-app] #4572 vstd!seq.Seq.index.? #1249 #263 #4571 #33
[mk-app] #4573 = #4570 #4572
[mk-app] #4574 => #3106 #4573
[mk-app] #4575 pattern #4570
[mk-quant] #4576 internal_vstd!slice.impl&__2.spec_index.?_definition 4 #4575 #4574
[attach-var-names] #4576 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4577 => #4569 #4576
[mk-app] #4578 or #4044 #4573
[inst-discovered] theory-solving 0x0 basic# ; #4574
[mk-app] #4579 = #4574 #4578
[instance] 0x0 #4579
[attach-enode] #4579 0
[end-of-instance]
[mk-quant] #4579 internal_vstd!slice.impl&__2.spec_index.?_definition 4 #4575 #4578
[attach-var-names] #4579 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4580 not #4569
[mk-app] #4581 or #4580 #4579
[mk-app] #4582 => #4569 #4579
[inst-discovered] theory-solving 0x0 basic# ; #4582
[mk-app] #4583 = #4582 #4581
[instance] 0x0 #4583
[attach-enode] #4583 0
[end-of-instance]
[mk-app] #4582 tr_bound%vstd!slice.SliceAdditionalSpecFns. #1198 #3182 #44 #45
[mk-app] #4583 => #2967 #4582
[mk-app] #4584 pattern #4582
[mk-quant] #4585 internal_vstd__slice__impl&__2_trait_impl_definition 2 #4584 #4583
[attach-var-names] #4585 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4586 or #3188 #4582
[inst-discovered] theory-solving 0x0 basic# ; #4583
[mk-app] #4587 = #4583 #4586
[instance] 0x0 #4587
[attach-enode] #4587 0
[end-of-instance]
[mk-quant] #4587 internal_vstd__slice__impl&__2_trait_impl_definition 2 #4584 #4586
[attach-var-names] #4587 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4588 fuel_bool #891
[mk-app] #4589 has_type #32 #3515
[mk-app] #4590 has_type #33 #3515
[mk-app] #4591 and #4589 #4590
[mk-app] #4592 ext_eq #2 #3515 #32 #33
[mk-app] #4593 vstd!slice.len%returns_clause_autospec.? #1249 #263 #32
[mk-app] #4594 vstd!slice.len%returns_clause_autospec.? #1249 #263 #33
[mk-app] #4595 = #4593 #4594
[mk-app] #4596 vstd!slice.len%returns_clause_autospec.? #1216 #1217 #43
[mk-app] #4597 < #186 #4596
[mk-app] #4598 and #510 #4597
[mk-app] #4599 SLICE #1216 #1217
[mk-app] #4600 vstd!view.View.view.? #1198 #4599 #43
[mk-app] #4601 vstd!seq.Seq.index.? #1216 #1217 #4600 #33
[mk-app] #4602 vstd!view.View.view.? #1198 #4599 #32
[mk-app] #4603 vstd!seq.Seq.index.? #1216 #1217 #4602 #33
[mk-app] #4604 = #4601 #4603
[mk-app] #4605 => #4598 #4604
[mk-app] #4606 => #185 #4605
[mk-app] #4607 pattern #4601
[mk-app] #4608 pattern #4603
[mk-quant] #4609 user_vstd__slice__axiom_slice_ext_equal_0 1 #4607 #4608 #4606
[attach-var-names] #4609 (|i$| ; |Poly|)
[mk-app] #4610 and #4595 #4609
[mk-app] #4611 = #4592 #4610
[mk-app] #4612 => #3106 #4611
[mk-app] #4613 => #4591 #4612
[mk-app] #4614 pattern #4592
[mk-quant] #4615 user_vstd__slice__axiom_slice_ext_equal_1 4 #4614 #4613
[attach-var-names] #4615 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4616 => #4588 #4615
[attach-meaning] #363 arith (- 1)
[mk-app] #4617 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4617 = #510 #514
[instance] 0x0 #4617
[attach-enode] #4617 0
[end-of-instance]
[mk-app] #4617 <= #4596 #186
[mk-app] #4618 not #4617
[inst-discovered] theory-solving 0x0 arith# ; #4597
[mk-app] #4619 = #4597 #4618
[instance] 0x0 #4619
[attach-enode] #4619 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4619 * #363 #186
[mk-app] #4620 + #4619 #4596
[attach-meaning] #363 arith (- 1)
[mk-app] #4621 * #363 #4596
[mk-app] #4622 + #186 #4621
[mk-app] #4619 >= #4622 #334
[inst-discovered] theory-solving 0x0 arith# ; #4617
[mk-app] #4620 = #4617 #4619
[instance] 0x0 #4620
[attach-enode] #4620 0
[end-of-instance]
[mk-app] #4620 not #4619
[mk-app] #4623 and #514 #4620
[mk-app] #4624 not #4623
[mk-app] #4625 or #4624 #4604
[mk-app] #4626 => #4623 #4604
[inst-discovered] theory-solving 0x0 basic# ; #4626
[mk-app] #4627 = #4626 #4625
[instance] 0x0 #4627
[attach-enode] #4627 0
[end-of-instance]
[mk-app] #4626 or #192 #4624 #4604
[mk-app] #4627 => #185 #4625
[inst-discovered] theory-solving 0x0 basic# ; #4627
[mk-app] #4628 = #4627 #4626
[instance] 0x0 #4628
[attach-enode] #4628 0
[end-of-instance]
[mk-quant] #4625 user_vstd__slice__axiom_slice_ext_equal_0 1 #4607 #4608 #4626
[attach-var-names] #4625 (|i$| ; |Poly|)
[mk-app] #4617 and #4595 #4625
[mk-app] #4618 = #4592 #4617
[mk-app] #4627 or #4044 #4618
[mk-app] #4628 => #3106 #4618
[inst-discovered] theory-solving 0x0 basic# ; #4628
[mk-app] #4629 = #4628 #4627
[instance] 0x0 #4629
[attach-enode] #4629 0
[end-of-instance]
[mk-app] #4628 not #4591
[mk-app] #4629 or #4628 #4044 #4618
[mk-app] #4630 => #4591 #4627
[inst-discovered] theory-solving 0x0 basic# ; #4630
[mk-app] #4631 = #4630 #4629
[instance] 0x0 #4631
[attach-enode] #4631 0
[end-of-instance]
[mk-quant] #4627 user_vstd__slice__axiom_slice_ext_equal_1 4 #4614 #4629
[attach-var-names] #4627 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4630 not #4588
[mk-app] #4631 or #4630 #4627
[mk-app] #4632 => #4588 #4627
[inst-discovered] theory-solving 0x0 basic# ; #4632
[mk-app] #4633 = #4632 #4631
[instance] 0x0 #4633
[attach-enode] #4633 0
[end-of-instance]
[mk-app] #4632 fuel_bool #892
[mk-app] #4633 and #4589 #185
[mk-app] #4634 vstd!slice.spec_slice_len.? #1249 #263 #32
[mk-app] #4635 < #186 #4634
[mk-app] #4636 and #510 #4635
[mk-app] #4637 has_resolved #1198 #3515 #32
[mk-app] #4638 has_resolved #1249 #263 #4572
[mk-app] #4639 => #4637 #4638
[mk-app] #4640 => #4636 #4639
[mk-app] #4641 => #3106 #4640
[mk-app] #4642 => #4633 #4641
[mk-app] #4643 pattern #4637 #4572
[mk-quant] #4644 user_vstd__slice__axiom_slice_has_resolved_0 4 #4643 #4642
[attach-var-names] #4644 (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4645 => #4632 #4644
[attach-meaning] #363 arith (- 1)
[mk-app] #4646 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4646 = #510 #514
[instance] 0x0 #4646
[attach-enode] #4646 0
[end-of-instance]
[mk-app] #4646 <= #4634 #186
[mk-app] #4647 not #4646
[inst-discovered] theory-solving 0x0 arith# ; #4635
[mk-app] #4648 = #4635 #4647
[instance] 0x0 #4648
[attach-enode] #4648 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4648 * #363 #186
[mk-app] #4649 + #4648 #4634
[attach-meaning] #363 arith (- 1)
[mk-app] #4650 * #363 #4634
[mk-app] #4651 + #186 #4650
[mk-app] #4648 >= #4651 #334
[inst-discovered] theory-solving 0x0 arith# ; #4646
[mk-app] #4649 = #4646 #4648
[instance] 0x0 #4649
[attach-enode] #4649 0
[end-of-instance]
[mk-app] #4649 not #4648
[mk-app] #4652 and #514 #4649
[mk-app] #4653 not #4637
[mk-app] #4654 or #4653 #4638
[inst-discovered] theory-solving 0x0 basic# ; #4639
[mk-app] #4655 = #4639 #4654
[instance] 0x0 #4655
[attach-enode] #4655 0
[end-of-instance]
[mk-app] #4655 not #4652
[mk-app] #4656 or #4655 #4653 #4638
[mk-app] #4657 => #4652 #4654
[inst-discovered] theory-solving 0x0 basic# ; #4657
[mk-app] #4658 = #4657 #4656
[instance] 0x0 #4658
[attach-enode] #4658 0
[end-of-instance]
[mk-app] #4654 or #4044 #4655 #4653 #4638
[mk-app] #4657 => #3106 #4656
[inst-discovered] theory-solving 0x0 basic# ; #4657
[mk-app] #4658 = #4657 #4654
[instance] 0x0 #4658
[attach-enode] #4658 0
[end-of-instance]
[mk-app] #4656 not #4633
[mk-app] #4657 or #4656 #4044 #4655 #4653 #4638
[mk-app] #4658 => #4633 #4654
[inst-discovered] theory-solving 0x0 basic# ; #4658
[mk-app] #4659 = #4658 #4657
[instance] 0x0 #4659
[attach-enode] #4659 0
[end-of-instance]
[mk-quant] #4654 user_vstd__slice__axiom_slice_has_resolved_0 4 #4643 #4657
[attach-var-names] #4654 (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4646 not #4632
[mk-app] #4647 or #4646 #4654
[mk-app] #4658 => #4632 #4654
[inst-discovered] theory-solving 0x0 basic# ; #4658
[mk-app] #4659 = #4658 #4647
[instance] 0x0 #4659
[attach-enode] #4659 0
[end-of-instance]
[mk-app] #4658 fuel_bool #893
[mk-app] #4659 height #4514
[mk-app] #4660 height #33
[mk-app] #4661 height_lt #4659 #4660
[mk-app] #4662 => #4513 #4661
[mk-app] #4663 => #4489 #4662
[mk-app] #4664 pattern #4659
[mk-quant] #4665 user_vstd__slice__axiom_slice_decreases_to_seq_0 3 #4664 #4663
[attach-var-names] #4665 (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4666 => #4658 #4665
[mk-app] #4667 or #4521 #4661
[inst-discovered] theory-solving 0x0 basic# ; #4662
[mk-app] #4668 = #4662 #4667
[instance] 0x0 #4668
[attach-enode] #4668 0
[end-of-instance]
[mk-app] #4668 or #4495 #4521 #4661
[mk-app] #4669 => #4489 #4667
[inst-discovered] theory-solving 0x0 basic# ; #4669
[mk-app] #4670 = #4669 #4668
[instance] 0x0 #4670
[attach-enode] #4670 0
[end-of-instance]
[mk-quant] #4667 user_vstd__slice__axiom_slice_decreases_to_seq_0 3 #4664 #4668
[attach-var-names] #4667 (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4669 not #4658
[mk-app] #4670 or #4669 #4667
[mk-app] #4671 => #4658 #4667
[inst-discovered] theory-solving 0x0 basic# ; #4671
[mk-app] #4672 = #4671 #4670
[instance] 0x0 #4672
[attach-enode] #4672 0
[end-of-instance]
[mk-app] #4671 fuel_bool #894
[mk-app] #4672 vstd!seq.Seq.len.? #1249 #263 #4571
[mk-app] #4673 < #186 #4672
[mk-app] #4674 and #510 #4673
[mk-app] #4675 and #3106 #4674
[mk-app] #4676 height #4572
[mk-app] #4677 height_lt #4676 #761
[mk-app] #4678 => #4675 #4677
[mk-app] #4679 => #4633 #4678
[mk-app] #4680 pattern #4676
[mk-quant] #4681 user_vstd__slice__lemma_slice_index_decreases_0 4 #4680 #4679
[attach-var-names] #4681 (|i!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4682 => #4671 #4681
[attach-meaning] #363 arith (- 1)
[mk-app] #4683 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4683 = #510 #514
[instance] 0x0 #4683
[attach-enode] #4683 0
[end-of-instance]
[mk-app] #4683 <= #4672 #186
[mk-app] #4684 not #4683
[inst-discovered] theory-solving 0x0 arith# ; #4673
[mk-app] #4685 = #4673 #4684
[instance] 0x0 #4685
[attach-enode] #4685 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4685 * #363 #186
[mk-app] #4686 + #4685 #4672
[attach-meaning] #363 arith (- 1)
[mk-app] #4687 * #363 #4672
[mk-app] #4688 + #186 #4687
[mk-app] #4685 >= #4688 #334
[inst-discovered] theory-solving 0x0 arith# ; #4683
[mk-app] #4686 = #4683 #4685
[instance] 0x0 #4686
[attach-enode] #4686 0
[end-of-instance]
[mk-app] #4686 not #4685
[mk-app] #4689 and #3106 #514 #4686
[mk-app] #4690 not #4689
[mk-app] #4691 or #4690 #4677
[mk-app] #4692 => #4689 #4677
[inst-discovered] theory-solving 0x0 basic# ; #4692
[mk-app] #4693 = #4692 #4691
[instance] 0x0 #4693
[attach-enode] #4693 0
[end-of-instance]
[mk-app] #4692 or #4656 #4690 #4677
[mk-app] #4693 => #4633 #4691
[inst-discovered] theory-solving 0x0 basic# ; #4693
[mk-app] #4694 = #4693 #4692
[instance] 0x0 #4694
[attach-enode] #4694 0
[end-of-instance]
[mk-quant] #4691 user_vstd__slice__lemma_slice_index_decreases_0 4 #4680 #4692
[attach-var-names] #4691 (|i!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4683 not #4671
[mk-app] #4684 or #4683 #4691
[mk-app] #4693 => #4671 #4691
[inst-discovered] theory-solving 0x0 basic# ; #4693
[mk-app] #4694 = #4693 #4684
[instance] 0x0 #4694
[attach-enode] #4694 0
[end-of-instance]
[mk-app] #4693 fuel_bool_default #845
[mk-app] #4694 %%lambda%%0 #1248 #1229 #1249 #263 #1231
[mk-app] #4695 %%apply%%0 #4694 #33
[mk-app] #4696 array_index #1248 #1229 #1249 #263 #1231 #33
[mk-app] #4697 = #4695 #4696
[mk-app] #4698 pattern #4695
[mk-quant] #4699 k!7302 6 #4698 #4697
[attach-var-names] #4699 (|i$| ; |Poly|) (|%%hole%%4| ; |%%Function%%|) (|%%hole%%3| ; |Type|) (|%%hole%%2| ; |Dcr|) (|%%hole%%1| ; |Type|) (|%%hole%%0| ; |Dcr|)
[mk-app] #4700 fuel_bool #845
[mk-app] #4701 vstd!array.array_view.? #1216 #1217 #64 #65 #33
[mk-app] #4702 const_int #65
[mk-app] #4703 I #4702
[mk-app] #4704 %%lambda%%0 #1216 #1217 #64 #65 #1306
[mk-app] #4705 mk_fun #4704
[mk-app] #4706 Poly%fun%1. #4705
[mk-app] #4707 vstd!seq.Seq.new.? #1216 #1217 #4703 #4706
[mk-app] #4708 = #4701 #4707
[mk-app] #4709 pattern #4701
[mk-quant] #4710 internal_vstd!array.array_view.?_definition 5 #4709 #4708
[attach-var-names] #4710 (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4711 => #4700 #4710
[mk-app] #4712 not #4700
[mk-app] #4713 or #4712 #4710
[inst-discovered] theory-solving 0x0 basic# ; #4711
[mk-app] #4714 = #4711 #4713
[instance] 0x0 #4714
[attach-enode] #4714 0
[end-of-instance]
[mk-app] #4714 has_type #4701 #3974
[mk-app] #4715 => #1305 #4714
[mk-quant] #4716 internal_vstd!array.array_view.?_pre_post_definition 5 #4709 #4715
[attach-var-names] #4716 (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4717 or #1312 #4714
[inst-discovered] theory-solving 0x0 basic# ; #4715
[mk-app] #4718 = #4715 #4717
[instance] 0x0 #4718
[attach-enode] #4718 0
[end-of-instance]
[mk-quant] #4718 internal_vstd!array.array_view.?_pre_post_definition 5 #4709 #4717
[attach-var-names] #4718 (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4719 fuel_bool_default #846
[mk-app] #4720 fuel_bool #846
[mk-app] #4721 uInv #269 #4702
[mk-app] #4722 and #3987 #4721
[mk-app] #4723 vstd!view.View.view.? #120 #1304 #33
[mk-app] #4724 = #4723 #4701
[mk-app] #4725 => #4722 #4724
[mk-app] #4726 pattern #4723
[mk-quant] #4727 internal_vstd!array.impl&__0.view.?_definition 5 #4726 #4725
[attach-var-names] #4727 (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4728 => #4720 #4727
[mk-app] #4729 not #4722
[mk-app] #4730 or #4729 #4724
[inst-discovered] theory-solving 0x0 basic# ; #4725
[mk-app] #4731 = #4725 #4730
[instance] 0x0 #4731
[attach-enode] #4731 0
[end-of-instance]
[mk-quant] #4731 internal_vstd!array.impl&__0.view.?_definition 5 #4726 #4730
[attach-var-names] #4731 (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4732 not #4720
[mk-app] #4733 or #4732 #4731
[mk-app] #4734 => #4720 #4731
[inst-discovered] theory-solving 0x0 basic# ; #4734
[mk-app] #4735 = #4734 #4733
[instance] 0x0 #4735
[attach-enode] #4735 0
[end-of-instance]
[mk-app] #4734 tr_bound%vstd!view.View. #120 #3146
[mk-app] #4735 => #3145 #4734
[mk-app] #4736 pattern #4734
[mk-quant] #4737 internal_vstd__array__impl&__0_trait_impl_definition 4 #4736 #4735
[attach-var-names] #4737 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4738 or #3152 #4734
[inst-discovered] theory-solving 0x0 basic# ; #4735
[mk-app] #4739 = #4735 #4738
[instance] 0x0 #4739
[attach-enode] #4739 0
[end-of-instance]
[mk-quant] #4739 internal_vstd__array__impl&__0_trait_impl_definition 4 #4736 #4738
[attach-var-names] #4739 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4740 fuel_bool #849
[mk-app] #4741 vstd!seq.Seq.len.? #1216 #1217 #4723
[mk-app] #4742 = #4741 #4702
[mk-app] #4743 => #4722 #4742
[mk-app] #4744 => #1305 #4743
[mk-app] #4745 pattern #4741
[mk-quant] #4746 user_vstd__array__array_len_matches_n_0 5 #4745 #4744
[attach-var-names] #4746 (|ar!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4747 => #4740 #4746
[mk-app] #4748 or #4729 #4742
[inst-discovered] theory-solving 0x0 basic# ; #4743
[mk-app] #4749 = #4743 #4748
[instance] 0x0 #4749
[attach-enode] #4749 0
[end-of-instance]
[mk-app] #4749 or #1312 #4729 #4742
[mk-app] #4750 => #1305 #4748
[inst-discovered] theory-solving 0x0 basic# ; #4750
[mk-app] #4751 = #4750 #4749
[instance] 0x0 #4751
[attach-enode] #4751 0
[end-of-instance]
[mk-quant] #4748 user_vstd__array__array_len_matches_n_0 5 #4745 #4749
[attach-var-names] #4748 (|ar!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4750 not #4740
[mk-app] #4751 or #4750 #4748
[mk-app] #4752 => #4740 #4748
[inst-discovered] theory-solving 0x0 basic# ; #4752
[mk-app] #4753 = #4752 #4751
[instance] 0x0 #4753
[attach-enode] #4753 0
[end-of-instance]
[mk-app] #4752 req%vstd!array.ArrayAdditionalSpecFns.spec_index. #1248 #1229 #1249 #263 #32 #33
[mk-app] #4753 %%global_location_label%%4
[mk-app] #4754 => #4753 #4545
[mk-app] #4755 = #4752 #4754
[mk-app] #4756 pattern #4752
[mk-quant] #4757 internal_req__vstd!array.ArrayAdditionalSpecFns.spec_index._definition 6 #4756 #4755
[attach-var-names] #4757 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[attach-meaning] #363 arith (- 1)
[mk-app] #4758 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4758 = #510 #514
[instance] 0x0 #4758
[attach-enode] #4758 0
[end-of-instance]
[mk-app] #4758 <= #4543 #186
[mk-app] #4759 not #4758
[inst-discovered] theory-solving 0x0 arith# ; #4544
[mk-app] #4760 = #4544 #4759
[instance] 0x0 #4760
[attach-enode] #4760 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4760 * #363 #186
[mk-app] #4761 + #4760 #4543
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #4758
[mk-app] #4760 = #4758 #4552
[instance] 0x0 #4760
[attach-enode] #4760 0
[end-of-instance]
[mk-app] #4760 not #4753
[mk-app] #4761 or #4760 #4556
[mk-app] #4762 => #4753 #4556
[inst-discovered] theory-solving 0x0 basic# ; #4762
[mk-app] #4763 = #4762 #4761
[instance] 0x0 #4763
[attach-enode] #4763 0
[end-of-instance]
[mk-app] #4762 = #4752 #4761
[mk-quant] #4763 internal_req__vstd!array.ArrayAdditionalSpecFns.spec_index._definition 6 #4756 #4762
[attach-var-names] #4763 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #4758 vstd!array.ArrayAdditionalSpecFns.spec_index.? #1248 #1229 #1249 #263 #32 #33
[mk-app] #4759 has_type #4758 #263
[mk-app] #4764 => #4550 #4759
[mk-app] #4765 pattern #4758
[mk-quant] #4766 internal_vstd!array.ArrayAdditionalSpecFns.spec_index.?_pre_post_definition 6 #4765 #4764
[attach-var-names] #4766 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #4767 or #4565 #4759
[inst-discovered] theory-solving 0x0 basic# ; #4764
[mk-app] #4768 = #4764 #4767
[instance] 0x0 #4768
[attach-enode] #4768 0
[end-of-instance]
[mk-quant] #4768 internal_vstd!array.ArrayAdditionalSpecFns.spec_index.?_pre_post_definition 6 #4765 #4767
[attach-var-names] #4768 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #4769 fuel_bool_default #847
[mk-app] #4770 fuel_bool #847
[mk-app] #4771 const_int #263
[mk-app] #4772 uInv #269 #4771
[mk-app] #4773 and #3403 #4772
[mk-app] #4774 ARRAY #1248 #1229 #1249 #263
[mk-app] #4775 vstd!array.ArrayAdditionalSpecFns.spec_index.? #120 #4774 #1248 #1229 #32 #33
[mk-app] #4776 vstd!view.View.view.? #120 #4774 #32
[mk-app] #4777 vstd!seq.Seq.index.? #1248 #1229 #4776 #33
[mk-app] #4778 = #4775 #4777
[mk-app] #4779 => #4773 #4778
[mk-app] #4780 pattern #4775
[mk-quant] #4781 internal_vstd!array.impl&__2.spec_index.?_definition 6 #4780 #4779
[attach-var-names] #4781 (|i!| ; |Poly|) (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4782 => #4770 #4781
[mk-app] #4783 not #4773
[mk-app] #4784 or #4783 #4778
[inst-discovered] theory-solving 0x0 basic# ; #4779
[mk-app] #4785 = #4779 #4784
[instance] 0x0 #4785
[attach-enode] #4785 0
[end-of-instance]
[mk-quant] #4785 internal_vstd!array.impl&__2.spec_index.?_definition 6 #4780 #4784
[attach-var-names] #4785 (|i!| ; |Poly|) (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4786 not #4770
[mk-app] #4787 or #4786 #4785
[mk-app] #4788 => #4770 #4785
[inst-discovered] theory-solving 0x0 basic# ; #4788
[mk-app] #4789 = #4788 #4787
[instance] 0x0 #4789
[attach-enode] #4789 0
[end-of-instance]
[mk-app] #4788 tr_bound%vstd!array.ArrayAdditionalSpecFns. #120 #3146 #1249 #263
[mk-app] #4789 => #3145 #4788
[mk-app] #4790 pattern #4788
[mk-quant] #4791 internal_vstd__array__impl&__2_trait_impl_definition 4 #4790 #4789
[attach-var-names] #4791 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4792 or #3152 #4788
[inst-discovered] theory-solving 0x0 basic# ; #4789
[mk-app] #4793 = #4789 #4792
[instance] 0x0 #4793
[attach-enode] #4793 0
[end-of-instance]
[mk-quant] #4793 internal_vstd__array__impl&__2_trait_impl_definition 4 #4790 #4792
[attach-var-names] #4793 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4794 fuel_bool #848
[mk-app] #4795 has_type #32 #4774
[mk-app] #4796 and #4795 #185
[mk-app] #4797 < #186 #4771
[mk-app] #4798 and #510 #4797
[mk-app] #4799 and #4773 #4798
[mk-app] #4800 vstd!array.array_view.? #1248 #1229 #1249 #263 #32
[mk-app] #4801 vstd!seq.Seq.index.? #1248 #1229 #4800 #33
[mk-app] #4802 = #4777 #4801
[mk-app] #4803 => #4799 #4802
[mk-app] #4804 => #4796 #4803
[mk-app] #4805 %Poly%array%. #32
[mk-app] #4806 array_index #1248 #1229 #1249 #263 #4805 #33
[mk-app] #4807 pattern #4806
[mk-quant] #4808 user_vstd__array__lemma_array_index_0 6 #4807 #4804
[attach-var-names] #4808 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4809 => #4794 #4808
[attach-meaning] #363 arith (- 1)
[mk-app] #4810 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4810 = #510 #514
[instance] 0x0 #4810
[attach-enode] #4810 0
[end-of-instance]
[mk-app] #4810 <= #4771 #186
[mk-app] #4811 not #4810
[inst-discovered] theory-solving 0x0 arith# ; #4797
[mk-app] #4812 = #4797 #4811
[instance] 0x0 #4812
[attach-enode] #4812 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4812 * #363 #186
[mk-app] #4813 + #4812 #4771
[attach-meaning] #363 arith (- 1)
[mk-app] #4814 * #363 #4771
[mk-app] #4815 + #186 #4814
[mk-app] #4812 >= #4815 #334
[inst-discovered] theory-solving 0x0 arith# ; #4810
[mk-app] #4813 = #4810 #4812
[instance] 0x0 #4813
[attach-enode] #4813 0
[end-of-instance]
[mk-app] #4813 not #4812
[mk-app] #4816 and #3403 #4772 #514 #4813
[mk-app] #4817 and #4773 #514 #4813
[inst-discovered] theory-solving 0x0 basic# ; #4817
[mk-app] #4818 = #4817 #4816
[instance] 0x0 #4818
[attach-enode] #4818 0
[end-of-instance]
[mk-app] #4817 not #4816
[mk-app] #4818 or #4817 #4802
[mk-app] #4819 => #4816 #4802
[inst-discovered] theory-solving 0x0 basic# ; #4819
[mk-app] #4820 = #4819 #4818
[instance] 0x0 #4820
[attach-enode] #4820 0
[end-of-instance]
[mk-app] #4819 not #4796
[mk-app] #4820 or #4819 #4817 #4802
[mk-app] #4821 => #4796 #4818
[inst-discovered] theory-solving 0x0 basic# ; #4821
[mk-app] #4822 = #4821 #4820
[instance] 0x0 #4822
[attach-enode] #4822 0
[end-of-instance]
[mk-quant] #4818 user_vstd__array__lemma_array_index_0 6 #4807 #4820
[attach-var-names] #4818 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4810 not #4794
[mk-app] #4811 or #4810 #4818
[mk-app] #4821 => #4794 #4818
[inst-discovered] theory-solving 0x0 basic# ; #4821
[mk-app] #4822 = #4821 #4811
[instance] 0x0 #4822
[attach-enode] #4822 0
[end-of-instance]
[mk-app] #4821 fuel_bool #850
[mk-app] #4822 has_type #33 #4774
[mk-app] #4823 and #4795 #4822
[mk-app] #4824 ext_eq #2 #4774 #32 #33
[mk-app] #4825 const_int #1217
[mk-app] #4826 < #186 #4825
[mk-app] #4827 and #510 #4826
[mk-app] #4828 ARRAY #1271 #1272 #1216 #1217
[mk-app] #4829 vstd!view.View.view.? #120 #4828 #43
[mk-app] #4830 vstd!seq.Seq.index.? #1271 #1272 #4829 #33
[mk-app] #4831 vstd!view.View.view.? #120 #4828 #32
[mk-app] #4832 vstd!seq.Seq.index.? #1271 #1272 #4831 #33
[mk-app] #4833 = #4830 #4832
[mk-app] #4834 => #4827 #4833
[mk-app] #4835 => #185 #4834
[mk-app] #4836 pattern #4830
[mk-app] #4837 pattern #4832
[mk-quant] #4838 user_vstd__array__axiom_array_ext_equal_0 1 #4836 #4837 #4835
[attach-var-names] #4838 (|i$| ; |Poly|)
[mk-app] #4839 = #4824 #4838
[mk-app] #4840 => #4773 #4839
[mk-app] #4841 => #4823 #4840
[mk-app] #4842 pattern #4824
[mk-quant] #4843 user_vstd__array__axiom_array_ext_equal_1 6 #4842 #4841
[attach-var-names] #4843 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4844 => #4821 #4843
[attach-meaning] #363 arith (- 1)
[mk-app] #4845 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4845 = #510 #514
[instance] 0x0 #4845
[attach-enode] #4845 0
[end-of-instance]
[mk-app] #4845 <= #4825 #186
[mk-app] #4846 not #4845
[inst-discovered] theory-solving 0x0 arith# ; #4826
[mk-app] #4847 = #4826 #4846
[instance] 0x0 #4847
[attach-enode] #4847 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4847 * #363 #186
[mk-app] #4848 + #4847 #4825
[attach-meaning] #363 arith (- 1)
[mk-app] #4849 * #363 #4825
[mk-app] #4850 + #186 #4849
[mk-app] #4847 >= #4850 #334
[inst-discovered] theory-solving 0x0 arith# ; #4845
[mk-app] #4848 = #4845 #4847
[instance] 0x0 #4848
[attach-enode] #4848 0
[end-of-instance]
[mk-app] #4848 not #4847
[mk-app] #4851 and #514 #4848
[mk-app] #4852 not #4851
[mk-app] #4853 or #4852 #4833
[mk-app] #4854 => #4851 #4833
[inst-discovered] theory-solving 0x0 basic# ; #4854
[mk-app] #4855 = #4854 #4853
[instance] 0x0 #4855
[attach-enode] #4855 0
[end-of-instance]
[mk-app] #4854 or #192 #4852 #4833
[mk-app] #4855 => #185 #4853
[inst-discovered] theory-solving 0x0 basic# ; #4855
[mk-app] #4856 = #4855 #4854
[instance] 0x0 #4856
[attach-enode] #4856 0
[end-of-instance]
[mk-quant] #4853 user_vstd__array__axiom_array_ext_equal_0 1 #4836 #4837 #4854
[attach-var-names] #4853 (|i$| ; |Poly|)
[mk-app] #4845 = #4824 #4853
[mk-app] #4846 or #4783 #4845
[mk-app] #4855 => #4773 #4845
[inst-discovered] theory-solving 0x0 basic# ; #4855
[mk-app] #4856 = #4855 #4846
[instance] 0x0 #4856
[attach-enode] #4856 0
[end-of-instance]
[mk-app] #4855 not #4823
[mk-app] #4856 or #4855 #4783 #4845
[mk-app] #4857 => #4823 #4846
[inst-discovered] theory-solving 0x0 basic# ; #4857
[mk-app] #4858 = #4857 #4856
[instance] 0x0 #4858
[attach-enode] #4858 0
[end-of-instance]
[mk-quant] #4846 user_vstd__array__axiom_array_ext_equal_1 6 #4842 #4856
[attach-var-names] #4846 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4857 not #4821
[mk-app] #4858 or #4857 #4846
[mk-app] #4859 => #4821 #4846
[inst-discovered] theory-solving 0x0 basic# ; #4859
[mk-app] #4860 = #4859 #4858
[instance] 0x0 #4860
[attach-enode] #4860 0
[end-of-instance]
[mk-app] #4859 fuel_bool #851
[mk-app] #4860 has_resolved #120 #4774 #32
[mk-app] #4861 has_resolved #1248 #1229 #4777
[mk-app] #4862 => #4860 #4861
[mk-app] #4863 => #4798 #4862
[mk-app] #4864 => #4773 #4863
[mk-app] #4865 => #4796 #4864
[mk-app] #4866 pattern #4860 #4777
[mk-quant] #4867 user_vstd__array__axiom_array_has_resolved_0 6 #4866 #4865
[attach-var-names] #4867 (|i!| ; |Poly|) (|array!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4868 => #4859 #4867
[attach-meaning] #363 arith (- 1)
[mk-app] #4869 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4869 = #510 #514
[instance] 0x0 #4869
[attach-enode] #4869 0
[end-of-instance]
[mk-app] #4869 <= #4771 #186
[mk-app] #4870 not #4869
[inst-discovered] theory-solving 0x0 arith# ; #4797
[mk-app] #4871 = #4797 #4870
[instance] 0x0 #4871
[attach-enode] #4871 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4871 * #363 #186
[mk-app] #4872 + #4871 #4771
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #4869
[mk-app] #4871 = #4869 #4812
[instance] 0x0 #4871
[attach-enode] #4871 0
[end-of-instance]
[mk-app] #4871 and #514 #4813
[mk-app] #4872 not #4860
[mk-app] #4873 or #4872 #4861
[inst-discovered] theory-solving 0x0 basic# ; #4862
[mk-app] #4874 = #4862 #4873
[instance] 0x0 #4874
[attach-enode] #4874 0
[end-of-instance]
[mk-app] #4874 not #4871
[mk-app] #4875 or #4874 #4872 #4861
[mk-app] #4876 => #4871 #4873
[inst-discovered] theory-solving 0x0 basic# ; #4876
[mk-app] #4877 = #4876 #4875
[instance] 0x0 #4877
[attach-enode] #4877 0
[end-of-instance]
[mk-app] #4873 or #4783 #4874 #4872 #4861
[mk-app] #4876 => #4773 #4875
[inst-discovered] theory-solving 0x0 basic# ; #4876
[mk-app] #4877 = #4876 #4873
[instance] 0x0 #4877
[attach-enode] #4877 0
[end-of-instance]
[mk-app] #4875 or #4819 #4783 #4874 #4872 #4861
[mk-app] #4876 => #4796 #4873
[inst-discovered] theory-solving 0x0 basic# ; #4876
[mk-app] #4877 = #4876 #4875
[instance] 0x0 #4877
[attach-enode] #4877 0
[end-of-instance]
[mk-quant] #4873 user_vstd__array__axiom_array_has_resolved_0 6 #4866 #4875
[attach-var-names] #4873 (|i!| ; |Poly|) (|array!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4869 not #4859
[mk-app] #4870 or #4869 #4873
[mk-app] #4876 => #4859 #4873
[inst-discovered] theory-solving 0x0 basic# ; #4876
[mk-app] #4877 = #4876 #4870
[instance] 0x0 #4877
[attach-enode] #4877 0
[end-of-instance]
[mk-app] #4876 fuel_bool #852
[mk-app] #4877 height #4723
[mk-app] #4878 height_lt #4877 #4660
[mk-app] #4879 => #4722 #4878
[mk-app] #4880 => #1305 #4879
[mk-app] #4881 pattern #4877
[mk-quant] #4882 user_vstd__array__axiom_array_decreases_to_seq_0 5 #4881 #4880
[attach-var-names] #4882 (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4883 => #4876 #4882
[mk-app] #4884 or #4729 #4878
[inst-discovered] theory-solving 0x0 basic# ; #4879
[mk-app] #4885 = #4879 #4884
[instance] 0x0 #4885
[attach-enode] #4885 0
[end-of-instance]
[mk-app] #4885 or #1312 #4729 #4878
[mk-app] #4886 => #1305 #4884
[inst-discovered] theory-solving 0x0 basic# ; #4886
[mk-app] #4887 = #4886 #4885
[instance] 0x0 #4887
[attach-enode] #4887 0
[end-of-instance]
[mk-quant] #4884 user_vstd__array__axiom_array_decreases_to_seq_0 5 #4881 #4885
[attach-var-names] #4884 (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4886 not #4876
[mk-app] #4887 or #4886 #4884
[mk-app] #4888 => #4876 #4884
[inst-discovered] theory-solving 0x0 basic# ; #4888
[mk-app] #4889 = #4888 #4887
[instance] 0x0 #4889
[attach-enode] #4889 0
[end-of-instance]
[mk-app] #4888 fuel_bool #853
[mk-app] #4889 vstd!seq.Seq.len.? #1248 #1229 #4776
[mk-app] #4890 < #186 #4889
[mk-app] #4891 and #510 #4890
[mk-app] #4892 and #4773 #4891
[mk-app] #4893 height #4777
[mk-app] #4894 height_lt #4893 #761
[mk-app] #4895 => #4892 #4894
[mk-app] #4896 => #4796 #4895
[mk-app] #4897 pattern #4893
[mk-quant] #4898 user_vstd__array__lemma_array_index_decreases_0 6 #4897 #4896
[attach-var-names] #4898 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4899 => #4888 #4898
[attach-meaning] #363 arith (- 1)
[mk-app] #4900 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #4900 = #510 #514
[instance] 0x0 #4900
[attach-enode] #4900 0
[end-of-instance]
[mk-app] #4900 <= #4889 #186
[mk-app] #4901 not #4900
[inst-discovered] theory-solving 0x0 arith# ; #4890
[mk-app] #4902 = #4890 #4901
[instance] 0x0 #4902
[attach-enode] #4902 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4902 * #363 #186
[mk-app] #4903 + #4902 #4889
[attach-meaning] #363 arith (- 1)
[mk-app] #4904 * #363 #4889
[mk-app] #4905 + #186 #4904
[mk-app] #4902 >= #4905 #334
[inst-discovered] theory-solving 0x0 arith# ; #4900
[mk-app] #4903 = #4900 #4902
[instance] 0x0 #4903
[attach-enode] #4903 0
[end-of-instance]
[mk-app] #4903 not #4902
[mk-app] #4906 and #3403 #4772 #514 #4903
[mk-app] #4907 and #4773 #514 #4903
[inst-discovered] theory-solving 0x0 basic# ; #4907
[mk-app] #4908 = #4907 #4906
[instance] 0x0 #4908
[attach-enode] #4908 0
[end-of-instance]
[mk-app] #4907 not #4906
[mk-app] #4908 or #4907 #4894
[mk-app] #4909 => #4906 #4894
[inst-discovered] theory-solving 0x0 basic# ; #4909
[mk-app] #4910 = #4909 #4908
[instance] 0x0 #4910
[attach-enode] #4910 0
[end-of-instance]
[mk-app] #4909 or #4819 #4907 #4894
[mk-app] #4910 => #4796 #4908
[inst-discovered] theory-solving 0x0 basic# ; #4910
[mk-app] #4911 = #4910 #4909
[instance] 0x0 #4911
[attach-enode] #4911 0
[end-of-instance]
[mk-quant] #4908 user_vstd__array__lemma_array_index_decreases_0 6 #4897 #4909
[attach-var-names] #4908 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4900 not #4888
[mk-app] #4901 or #4900 #4908
[mk-app] #4910 => #4888 #4908
[inst-discovered] theory-solving 0x0 basic# ; #4910
[mk-app] #4911 = #4910 #4901
[instance] 0x0 #4911
[attach-enode] #4911 0
[end-of-instance]
[mk-app] #4910 tr_bound%vstd!view.View. #1198 #1683
[mk-app] #4911 fuel_bool #895
[mk-app] #4912 vstd!view.View.view.? #1198 #1683 #33
[mk-app] #4913 vstd!seq.Seq.len.? #120 #244 #4912
[mk-app] #4914 str%strslice_len #1685
[mk-app] #4915 = #4913 #4914
[mk-app] #4916 => #1684 #4915
[mk-app] #4917 pattern #4913
[mk-quant] #4918 user_vstd__string__axiom_str_literal_len_0 1 #4917 #4916
[attach-var-names] #4918 (|s!| ; |Poly|)
[mk-app] #4919 => #4911 #4918
[mk-app] #4920 or #1691 #4915
[inst-discovered] theory-solving 0x0 basic# ; #4916
[mk-app] #4921 = #4916 #4920
[instance] 0x0 #4921
[attach-enode] #4921 0
[end-of-instance]
[mk-quant] #4921 user_vstd__string__axiom_str_literal_len_0 1 #4917 #4920
[attach-var-names] #4921 (|s!| ; |Poly|)
[mk-app] #4922 not #4911
[mk-app] #4923 or #4922 #4921
[mk-app] #4924 => #4911 #4921
[inst-discovered] theory-solving 0x0 basic# ; #4924
[mk-app] #4925 = #4924 #4923
[instance] 0x0 #4925
[attach-enode] #4925 0
[end-of-instance]
[mk-app] #4924 fuel_bool #896
[mk-app] #4925 has_type #32 #1683
[mk-app] #4926 and #4925 #185
[mk-app] #4927 vstd!view.View.view.? #1198 #1683 #32
[mk-app] #4928 vstd!seq.Seq.index.? #120 #244 #4927 #33
[mk-app] #4929 %I #4928
[mk-app] #4930 %Poly%strslice%. #32
[mk-app] #4931 str%strslice_get_char #4930 #186
[mk-app] #4932 = #4929 #4931
[mk-app] #4933 => #4926 #4932
[mk-app] #4934 pattern #4928
[mk-quant] #4935 user_vstd__string__axiom_str_literal_get_char_0 2 #4934 #4933
[attach-var-names] #4935 (|i!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #4936 => #4924 #4935
[mk-app] #4937 not #4926
[mk-app] #4938 or #4937 #4932
[inst-discovered] theory-solving 0x0 basic# ; #4933
[mk-app] #4939 = #4933 #4938
[instance] 0x0 #4939
[attach-enode] #4939 0
[end-of-instance]
[mk-quant] #4939 user_vstd__string__axiom_str_literal_get_char_0 2 #4934 #4938
[attach-var-names] #4939 (|i!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #4940 not #4924
[mk-app] #4941 or #4940 #4939
[mk-app] #4942 => #4924 #4939
[inst-discovered] theory-solving 0x0 basic# ; #4942
[mk-app] #4943 = #4942 #4941
[instance] 0x0 #4943
[attach-enode] #4943 0
[end-of-instance]
[mk-app] #4942 vstd!raw_ptr.view_reverse_for_eq.? #64 #65 #33
[mk-app] #4943 PTR #64 #65
[mk-app] #4944 has_type #4942 #4943
[mk-app] #4945 => #2045 #4944
[mk-app] #4946 pattern #4942
[mk-quant] #4947 internal_vstd!raw_ptr.view_reverse_for_eq.?_pre_post_definition 3 #4946 #4945
[attach-var-names] #4947 (|data!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4948 or #2052 #4944
[inst-discovered] theory-solving 0x0 basic# ; #4945
[mk-app] #4949 = #4945 #4948
[instance] 0x0 #4949
[attach-enode] #4949 0
[end-of-instance]
[mk-quant] #4949 internal_vstd!raw_ptr.view_reverse_for_eq.?_pre_post_definition 3 #4946 #4948
[attach-var-names] #4949 (|data!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4950 tr_bound%vstd!view.View. #120 #3163
[mk-app] #4951 pattern #4950
[mk-quant] #4952 internal_vstd__raw_ptr__impl&__2_trait_impl_definition 2 #4951 #4950
[attach-var-names] #4952 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4953 fuel_bool #857
[mk-app] #4954 has_type #33 #4943
[mk-app] #4955 vstd!view.View.view.? #120 #4943 #33
[mk-app] #4956 vstd!raw_ptr.view_reverse_for_eq.? #64 #65 #4955
[mk-app] #4957 = #4956 #33
[mk-app] #4958 => #4954 #4957
[mk-app] #4959 pattern #4955
[mk-quant] #4960 user_vstd__raw_ptr__ptrs_mut_eq_0 3 #4959 #4958
[attach-var-names] #4960 (|a!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4961 => #4953 #4960
[mk-app] #4962 not #4954
[mk-app] #4963 or #4962 #4957
[inst-discovered] theory-solving 0x0 basic# ; #4958
[mk-app] #4964 = #4958 #4963
[instance] 0x0 #4964
[attach-enode] #4964 0
[end-of-instance]
[mk-quant] #4964 user_vstd__raw_ptr__ptrs_mut_eq_0 3 #4959 #4963
[attach-var-names] #4964 (|a!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4965 not #4953
[mk-app] #4966 or #4965 #4964
[mk-app] #4967 => #4953 #4964
[inst-discovered] theory-solving 0x0 basic# ; #4967
[mk-app] #4968 = #4967 #4966
[instance] 0x0 #4968
[attach-enode] #4968 0
[end-of-instance]
[mk-app] #4967 has_type #32 #203
[mk-app] #4968 and #4967 #1424
[mk-app] #4969 vstd!raw_ptr.view_reverse_for_eq_sized.? #1249 #263 #32 #33
[mk-app] #4970 PTR #1249 #263
[mk-app] #4971 has_type #4969 #4970
[mk-app] #4972 => #4968 #4971
[mk-app] #4973 pattern #4969
[mk-quant] #4974 internal_vstd!raw_ptr.view_reverse_for_eq_sized.?_pre_post_definition 4 #4973 #4972
[attach-var-names] #4974 (|provenance!| ; |Poly|) (|addr!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4975 not #4968
[mk-app] #4976 or #4975 #4971
[inst-discovered] theory-solving 0x0 basic# ; #4972
[mk-app] #4977 = #4972 #4976
[instance] 0x0 #4977
[attach-enode] #4977 0
[end-of-instance]
[mk-quant] #4977 internal_vstd!raw_ptr.view_reverse_for_eq_sized.?_pre_post_definition 4 #4973 #4976
[attach-var-names] #4977 (|provenance!| ; |Poly|) (|addr!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4978 fuel_bool #858
[mk-app] #4979 %Poly%vstd!raw_ptr.PtrData. #4955
[mk-app] #4980 vstd!raw_ptr.PtrData./PtrData/addr #4979
[mk-app] #4981 I #4980
[mk-app] #4982 vstd!raw_ptr.PtrData./PtrData/provenance #4979
[mk-app] #4983 Poly%vstd!raw_ptr.Provenance. #4982
[mk-app] #4984 vstd!raw_ptr.view_reverse_for_eq_sized.? #64 #65 #4981 #4983
[mk-app] #4985 = #4984 #33
[mk-app] #4986 => #4513 #4985
[mk-app] #4987 => #4954 #4986
[mk-quant] #4988 user_vstd__raw_ptr__ptrs_mut_eq_sized_0 3 #4959 #4987
[attach-var-names] #4988 (|a!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4989 => #4978 #4988
[mk-app] #4990 or #4521 #4985
[inst-discovered] theory-solving 0x0 basic# ; #4986
[mk-app] #4991 = #4986 #4990
[instance] 0x0 #4991
[attach-enode] #4991 0
[end-of-instance]
[mk-app] #4991 or #4962 #4521 #4985
[mk-app] #4992 => #4954 #4990
[inst-discovered] theory-solving 0x0 basic# ; #4992
[mk-app] #4993 = #4992 #4991
[instance] 0x0 #4993
[attach-enode] #4993 0
[end-of-instance]
[mk-quant] #4990 user_vstd__raw_ptr__ptrs_mut_eq_sized_0 3 #4959 #4991
[attach-var-names] #4990 (|a!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4992 not #4978
[mk-app] #4993 or #4992 #4990
[mk-app] #4994 => #4978 #4990
[inst-discovered] theory-solving 0x0 basic# ; #4994
[mk-app] #4995 = #4994 #4993
[instance] 0x0 #4995
[attach-enode] #4995 0
[end-of-instance]
[mk-app] #4994 tr_bound%core!clone.Clone. #120 #3308
[mk-app] #4995 tr_bound%core!cmp.PartialEq. #120 #3308 #120 #3308
[mk-app] #4996 tr_bound%core!cmp.PartialOrd. #120 #3308 #120 #3308
[mk-app] #4997 vstd!std_specs.iter.StepSpec.spec_is_lt.? #1249 #263 #32 #33
[mk-app] #4998 has_type #4997 #135
[mk-app] #4999 => #1989 #4998
[mk-app] #5000 pattern #4997
[mk-quant] #5001 internal_vstd!std_specs.iter.StepSpec.spec_is_lt.?_pre_post_definition 4 #5000 #4999
[attach-var-names] #5001 (|other!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5002 or #1997 #4998
[inst-discovered] theory-solving 0x0 basic# ; #4999
[mk-app] #5003 = #4999 #5002
[instance] 0x0 #5003
[attach-enode] #5003 0
[end-of-instance]
[mk-quant] #5003 internal_vstd!std_specs.iter.StepSpec.spec_is_lt.?_pre_post_definition 4 #5000 #5002
[attach-var-names] #5003 (|other!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5004 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #1249 #263 #32 #33
[mk-app] #5005 has_type #5004 #184
[mk-app] #5006 => #1989 #5005
[mk-app] #5007 pattern #5004
[mk-quant] #5008 internal_vstd!std_specs.iter.StepSpec.spec_steps_between_int.?_pre_post_definition 4 #5007 #5006
[attach-var-names] #5008 (|end!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5009 or #1997 #5005
[inst-discovered] theory-solving 0x0 basic# ; #5006
[mk-app] #5010 = #5006 #5009
[instance] 0x0 #5010
[attach-enode] #5010 0
[end-of-instance]
[mk-quant] #5010 internal_vstd!std_specs.iter.StepSpec.spec_steps_between_int.?_pre_post_definition 4 #5007 #5009
[attach-var-names] #5010 (|end!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5011 and #1987 #204
[mk-app] #5012 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #1249 #263 #32 #33
[mk-app] #5013 TYPE%core!option.Option. #1249 #263
[mk-app] #5014 has_type #5012 #5013
[mk-app] #5015 => #5011 #5014
[mk-app] #5016 pattern #5012
[mk-quant] #5017 internal_vstd!std_specs.iter.StepSpec.spec_forward_checked.?_pre_post_definition 4 #5016 #5015
[attach-var-names] #5017 (|count!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5018 not #5011
[mk-app] #5019 or #5018 #5014
[inst-discovered] theory-solving 0x0 basic# ; #5015
[mk-app] #5020 = #5015 #5019
[instance] 0x0 #5020
[attach-enode] #5020 0
[end-of-instance]
[mk-quant] #5020 internal_vstd!std_specs.iter.StepSpec.spec_forward_checked.?_pre_post_definition 4 #5016 #5019
[attach-var-names] #5020 (|count!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5021 and #1987 #185
[mk-app] #5022 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #1249 #263 #32 #33
[mk-app] #5023 has_type #5022 #5013
[mk-app] #5024 => #5021 #5023
[mk-app] #5025 pattern #5022
[mk-quant] #5026 internal_vstd!std_specs.iter.StepSpec.spec_forward_checked_int.?_pre_post_definition 4 #5025 #5024
[attach-var-names] #5026 (|count!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5027 not #5021
[mk-app] #5028 or #5027 #5023
[inst-discovered] theory-solving 0x0 basic# ; #5024
[mk-app] #5029 = #5024 #5028
[instance] 0x0 #5029
[attach-enode] #5029 0
[end-of-instance]
[mk-quant] #5029 internal_vstd!std_specs.iter.StepSpec.spec_forward_checked_int.?_pre_post_definition 4 #5025 #5028
[attach-var-names] #5029 (|count!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5030 fuel_bool_default #812
[mk-app] #5031 fuel_bool #812
[mk-app] #5032 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #3308 #32 #33
[mk-app] #5033 < #674 #186
[mk-app] #5034 B #5033
[mk-app] #5035 = #5032 #5034
[mk-app] #5036 pattern #5032
[mk-quant] #5037 internal_vstd!std_specs.range.impl&__19.spec_is_lt.?_definition 2 #5036 #5035
[attach-var-names] #5037 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5038 => #5031 #5037
[mk-app] #5039 <= #186 #674
[mk-app] #5040 not #5039
[inst-discovered] theory-solving 0x0 arith# ; #5033
[mk-app] #5041 = #5033 #5040
[instance] 0x0 #5041
[attach-enode] #5041 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #5041 <= #3966 #334
[inst-discovered] theory-solving 0x0 arith# ; #5039
[mk-app] #5042 = #5039 #5041
[instance] 0x0 #5042
[attach-enode] #5042 0
[end-of-instance]
[mk-app] #5042 not #5041
[mk-app] #5043 B #5042
[mk-app] #5044 = #5032 #5043
[mk-quant] #5045 internal_vstd!std_specs.range.impl&__19.spec_is_lt.?_definition 2 #5036 #5044
[attach-var-names] #5045 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5039 not #5031
[mk-app] #5040 or #5039 #5045
[mk-app] #5046 => #5031 #5045
[inst-discovered] theory-solving 0x0 basic# ; #5046
[mk-app] #5047 = #5046 #5040
[instance] 0x0 #5047
[attach-enode] #5047 0
[end-of-instance]
[mk-app] #5046 fuel_bool_default #813
[mk-app] #5047 fuel_bool #813
[mk-app] #5048 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #3308 #32 #33
[mk-app] #5049 I #4189
[mk-app] #5050 = #5048 #5049
[mk-app] #5051 pattern #5048
[mk-quant] #5052 internal_vstd!std_specs.range.impl&__19.spec_steps_between_int.?_definition 2 #5051 #5050
[attach-var-names] #5052 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5053 => #5047 #5052
[mk-app] #5054 not #5047
[mk-app] #5055 or #5054 #5052
[inst-discovered] theory-solving 0x0 basic# ; #5053
[mk-app] #5056 = #5053 #5055
[instance] 0x0 #5056
[attach-enode] #5056 0
[end-of-instance]
[mk-app] #5056 => #3748 #3097
[mk-quant] #5057 internal_vstd__std_specs__iter__impl&__16_trait_impl_definition 2 #3100 #5056
[attach-var-names] #5057 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #5058 or #3755 #3097
[inst-discovered] theory-solving 0x0 basic# ; #5056
[mk-app] #5059 = #5056 #5058
[instance] 0x0 #5059
[attach-enode] #5059 0
[end-of-instance]
[mk-quant] #5059 internal_vstd__std_specs__iter__impl&__16_trait_impl_definition 2 #3100 #5058
[attach-var-names] #5059 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #5060 fuel_bool_default #815
[mk-app] #5061 fuel_bool #815
[mk-app] #5062 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #3308 #32 #33
[mk-app] #5063 Add #674 #186
[mk-app] #5064 Int
[attach-meaning] #5064 arith 255
[mk-app] #5065 <= #5063 #5064
[mk-app] #5066 uClip #272 #5063
[mk-app] #5067 I #5066
[mk-app] #5068 core!option.Option./Some #5067
[mk-app] #5069 if #5065 #5068 #1714
[mk-app] #5070 Poly%core!option.Option. #5069
[mk-app] #5071 = #5062 #5070
[mk-app] #5072 pattern #5062
[mk-quant] #5073 internal_vstd!std_specs.range.impl&__19.spec_forward_checked_int.?_definition 2 #5072 #5071
[attach-var-names] #5073 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5074 => #5061 #5073
[mk-app] #5075 not #5061
[mk-app] #5076 or #5075 #5073
[inst-discovered] theory-solving 0x0 basic# ; #5074
[mk-app] #5077 = #5074 #5076
[instance] 0x0 #5077
[attach-enode] #5077 0
[end-of-instance]
[mk-app] #5077 fuel_bool_default #814
[mk-app] #5078 fuel_bool #814
[mk-app] #5079 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #3308 #32 #33
[mk-app] #5080 = #5079 #5062
[mk-app] #5081 pattern #5079
[mk-quant] #5082 internal_vstd!std_specs.range.impl&__19.spec_forward_checked.?_definition 2 #5081 #5080
[attach-var-names] #5082 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5083 => #5078 #5082
[mk-app] #5084 not #5078
[mk-app] #5085 or #5084 #5082
[inst-discovered] theory-solving 0x0 basic# ; #5083
[mk-app] #5086 = #5083 #5085
[instance] 0x0 #5086
[attach-enode] #5086 0
[end-of-instance]
[mk-app] #5086 tr_bound%core!iter.range.Step. #120 #3308
[mk-app] #5087 tr_bound%vstd!std_specs.iter.StepSpec. #120 #3308
[mk-app] #5088 vstd!std_specs.range.spec_range_next.? #64 #65 #33
[mk-app] #5089 Poly%tuple%2. #5088
[mk-app] #5090 TYPE%tuple%2. #120 #1976 #120 #1703
[mk-app] #5091 has_type #5089 #5090
[mk-app] #5092 => #1977 #5091
[mk-app] #5093 pattern #5088
[mk-quant] #5094 internal_vstd!std_specs.range.spec_range_next.?_pre_post_definition 3 #5093 #5092
[attach-var-names] #5094 (|a!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5095 or #1984 #5091
[inst-discovered] theory-solving 0x0 basic# ; #5092
[mk-app] #5096 = #5092 #5095
[instance] 0x0 #5096
[attach-enode] #5096 0
[end-of-instance]
[mk-quant] #5096 internal_vstd!std_specs.range.spec_range_next.?_pre_post_definition 3 #5093 #5095
[attach-var-names] #5096 (|a!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5097 fuel_bool #816
[mk-app] #5098 TYPE%core!ops.range.Range. #120 #3308
[mk-app] #5099 has_type #33 #5098
[mk-app] #5100 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #3308 #2005 #2017
[mk-app] #5101 %B #5100
[mk-app] #5102 I #289
[mk-app] #5103 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #3308 #2005 #5102
[mk-app] #5104 %Poly%core!option.Option. #5103
[mk-app] #5105 is-core!option.Option./Some #5104
[mk-app] #5106 Poly%core!option.Option. #5104
[mk-app] #5107 %Poly%core!option.Option. #5106
[mk-app] #5108 core!option.Option./Some/0 #120 #3308 #5107
[mk-app] #5109 %I #5108
[mk-app] #5110 vstd!std_specs.range.spec_range_next.? #120 #3308 #33
[mk-app] #5111 I #5109
[mk-app] #5112 core!ops.range.Range./Range #5111 #2017
[mk-app] #5113 Poly%core!ops.range.Range. #5112
[mk-app] #5114 core!option.Option./Some #2005
[mk-app] #5115 Poly%core!option.Option. #5114
[mk-app] #5116 tuple%2./tuple%2 #5113 #5115
[mk-app] #5117 = #5110 #5116
[mk-app] #5118 => #5105 #5117
[mk-app] #5119 => #5101 #5118
[mk-app] #5120 not #5101
[mk-app] #5121 tuple%2./tuple%2 #33 #1715
[mk-app] #5122 = #5110 #5121
[mk-app] #5123 => #5120 #5122
[mk-app] #5124 and #5119 #5123
[mk-app] #5125 => #5099 #5124
[mk-app] #5126 pattern #5110
[mk-quant] #5127 user_vstd__std_specs__range__axiom_spec_range_next_u8_0 1 #5126 #5125
[attach-var-names] #5127 (|range!| ; |Poly|)
[mk-app] #5128 => #5097 #5127
[mk-app] #5129 is #5104
[inst-discovered] theory-solving 0x0 datatype# ; #5105
[mk-app] #5130 = #5105 #5129
[instance] 0x0 #5130
[attach-enode] #5130 0
[end-of-instance]
[mk-app] #5130 not #5129
[mk-app] #5131 or #5130 #5117
[mk-app] #5132 => #5129 #5117
[inst-discovered] theory-solving 0x0 basic# ; #5132
[mk-app] #5133 = #5132 #5131
[instance] 0x0 #5133
[attach-enode] #5133 0
[end-of-instance]
[mk-app] #5132 or #5120 #5130 #5117
[mk-app] #5133 => #5101 #5131
[inst-discovered] theory-solving 0x0 basic# ; #5133
[mk-app] #5134 = #5133 #5132
[instance] 0x0 #5134
[attach-enode] #5134 0
[end-of-instance]
[mk-app] #5131 or #5101 #5122
[inst-discovered] theory-solving 0x0 basic# ; #5123
[mk-app] #5133 = #5123 #5131
[instance] 0x0 #5133
[attach-enode] #5133 0
[end-of-instance]
[mk-app] #5133 and #5132 #5131
[mk-app] #5134 not #5099
[mk-app] #5135 or #5134 #5133
[mk-app] #5136 => #5099 #5133
[inst-discovered] theory-solving 0x0 basic# ; #5136
[mk-app] #5137 = #5136 #5135
[instance] 0x0 #5137
[attach-enode] #5137 0
[end-of-instance]
[mk-quant] #5136 user_vstd__std_specs__range__axiom_spec_range_next_u8_0 1 #5126 #5135
[attach-var-names] #5136 (|range!| ; |Poly|)
[mk-app] #5137 not #5097
[mk-app] #5138 or #5137 #5136
[mk-app] #5139 => #5097 #5136
[inst-discovered] theory-solving 0x0 basic# ; #5139
[mk-app] #5140 = #5139 #5138
[instance] 0x0 #5140
[attach-enode] #5140 0
[end-of-instance]
[attach-meaning] #280 arith 32
[mk-app] #5139 tr_bound%core!clone.Clone. #120 #3313
[attach-meaning] #280 arith 32
[attach-meaning] #280 arith 32
[mk-app] #5140 tr_bound%core!cmp.PartialEq. #120 #3313 #120 #3313
[attach-meaning] #280 arith 32
[attach-meaning] #280 arith 32
[mk-app] #5141 tr_bound%core!cmp.PartialOrd. #120 #3313 #120 #3313
[mk-app] #5142 fuel_bool_default #817
[mk-app] #5143 fuel_bool #817
[attach-meaning] #280 arith 32
[mk-app] #5144 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #3313 #32 #33
[mk-app] #5145 = #5144 #5034
[attach-meaning] #280 arith 32
[mk-app] #5146 pattern #5144
[mk-quant] #5147 internal_vstd!std_specs.range.impl&__21.spec_is_lt.?_definition 2 #5146 #5145
[attach-var-names] #5147 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5148 => #5143 #5147
[mk-app] #5149 <= #186 #674
[mk-app] #5150 not #5149
[inst-discovered] theory-solving 0x0 arith# ; #5033
[mk-app] #5151 = #5033 #5150
[instance] 0x0 #5151
[attach-enode] #5151 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5149
[mk-app] #5151 = #5149 #5041
[instance] 0x0 #5151
[attach-enode] #5151 0
[end-of-instance]
[mk-app] #5151 = #5144 #5043
[mk-quant] #5152 internal_vstd!std_specs.range.impl&__21.spec_is_lt.?_definition 2 #5146 #5151
[attach-var-names] #5152 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5149 not #5143
[mk-app] #5150 or #5149 #5152
[mk-app] #5153 => #5143 #5152
[inst-discovered] theory-solving 0x0 basic# ; #5153
[mk-app] #5154 = #5153 #5150
[instance] 0x0 #5154
[attach-enode] #5154 0
[end-of-instance]
[mk-app] #5153 fuel_bool_default #818
[mk-app] #5154 fuel_bool #818
[attach-meaning] #280 arith 32
[mk-app] #5155 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #3313 #32 #33
[mk-app] #5156 = #5155 #5049
[attach-meaning] #280 arith 32
[mk-app] #5157 pattern #5155
[mk-quant] #5158 internal_vstd!std_specs.range.impl&__21.spec_steps_between_int.?_definition 2 #5157 #5156
[attach-var-names] #5158 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5159 => #5154 #5158
[mk-app] #5160 not #5154
[mk-app] #5161 or #5160 #5158
[inst-discovered] theory-solving 0x0 basic# ; #5159
[mk-app] #5162 = #5159 #5161
[instance] 0x0 #5162
[attach-enode] #5162 0
[end-of-instance]
[mk-app] #5162 fuel_bool_default #820
[mk-app] #5163 fuel_bool #820
[attach-meaning] #280 arith 32
[mk-app] #5164 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #3313 #32 #33
[mk-app] #5165 Int
[attach-meaning] #5165 arith 4294967295
[mk-app] #5166 <= #5063 #5165
[attach-meaning] #280 arith 32
[mk-app] #5167 uClip #280 #5063
[mk-app] #5168 I #5167
[mk-app] #5169 core!option.Option./Some #5168
[mk-app] #5170 if #5166 #5169 #1714
[mk-app] #5171 Poly%core!option.Option. #5170
[mk-app] #5172 = #5164 #5171
[attach-meaning] #280 arith 32
[mk-app] #5173 pattern #5164
[mk-quant] #5174 internal_vstd!std_specs.range.impl&__21.spec_forward_checked_int.?_definition 2 #5173 #5172
[attach-var-names] #5174 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5175 => #5163 #5174
[mk-app] #5176 not #5163
[mk-app] #5177 or #5176 #5174
[inst-discovered] theory-solving 0x0 basic# ; #5175
[mk-app] #5178 = #5175 #5177
[instance] 0x0 #5178
[attach-enode] #5178 0
[end-of-instance]
[mk-app] #5178 fuel_bool_default #819
[mk-app] #5179 fuel_bool #819
[attach-meaning] #280 arith 32
[mk-app] #5180 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #3313 #32 #33
[attach-meaning] #280 arith 32
[mk-app] #5181 = #5180 #5164
[attach-meaning] #280 arith 32
[mk-app] #5182 pattern #5180
[mk-quant] #5183 internal_vstd!std_specs.range.impl&__21.spec_forward_checked.?_definition 2 #5182 #5181
[attach-var-names] #5183 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5184 => #5179 #5183
[mk-app] #5185 not #5179
[mk-app] #5186 or #5185 #5183
[inst-discovered] theory-solving 0x0 basic# ; #5184
[mk-app] #5187 = #5184 #5186
[instance] 0x0 #5187
[attach-enode] #5187 0
[end-of-instance]
[attach-meaning] #280 arith 32
[mk-app] #5187 tr_bound%core!iter.range.Step. #120 #3313
[attach-meaning] #280 arith 32
[mk-app] #5188 tr_bound%vstd!std_specs.iter.StepSpec. #120 #3313
[mk-app] #5189 fuel_bool #821
[attach-meaning] #280 arith 32
[mk-app] #5190 TYPE%core!ops.range.Range. #120 #3313
[mk-app] #5191 has_type #33 #5190
[attach-meaning] #280 arith 32
[mk-app] #5192 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #3313 #2005 #2017
[mk-app] #5193 %B #5192
[attach-meaning] #280 arith 32
[mk-app] #5194 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #3313 #2005 #5102
[mk-app] #5195 %Poly%core!option.Option. #5194
[mk-app] #5196 is-core!option.Option./Some #5195
[attach-meaning] #280 arith 32
[mk-app] #5197 Poly%core!option.Option. #5195
[mk-app] #5198 %Poly%core!option.Option. #5197
[mk-app] #5199 core!option.Option./Some/0 #120 #3313 #5198
[mk-app] #5200 %I #5199
[attach-meaning] #280 arith 32
[mk-app] #5201 vstd!std_specs.range.spec_range_next.? #120 #3313 #33
[mk-app] #5202 I #5200
[mk-app] #5203 core!ops.range.Range./Range #5202 #2017
[mk-app] #5204 Poly%core!ops.range.Range. #5203
[mk-app] #5205 tuple%2./tuple%2 #5204 #5115
[mk-app] #5206 = #5201 #5205
[mk-app] #5207 => #5196 #5206
[mk-app] #5208 => #5193 #5207
[attach-meaning] #280 arith 32
[mk-app] #5209 not #5193
[attach-meaning] #280 arith 32
[mk-app] #5210 = #5201 #5121
[mk-app] #5211 => #5209 #5210
[mk-app] #5212 and #5208 #5211
[mk-app] #5213 => #5191 #5212
[attach-meaning] #280 arith 32
[mk-app] #5214 pattern #5201
[mk-quant] #5215 user_vstd__std_specs__range__axiom_spec_range_next_u32_0 1 #5214 #5213
[attach-var-names] #5215 (|range!| ; |Poly|)
[mk-app] #5216 => #5189 #5215
[mk-app] #5217 is #5195
[inst-discovered] theory-solving 0x0 datatype# ; #5196
[mk-app] #5218 = #5196 #5217
[instance] 0x0 #5218
[attach-enode] #5218 0
[end-of-instance]
[mk-app] #5218 not #5217
[mk-app] #5219 or #5218 #5206
[mk-app] #5220 => #5217 #5206
[inst-discovered] theory-solving 0x0 basic# ; #5220
[mk-app] #5221 = #5220 #5219
[instance] 0x0 #5221
[attach-enode] #5221 0
[end-of-instance]
[mk-app] #5220 or #5209 #5218 #5206
[mk-app] #5221 => #5193 #5219
[inst-discovered] theory-solving 0x0 basic# ; #5221
[mk-app] #5222 = #5221 #5220
[instance] 0x0 #5222
[attach-enode] #5222 0
[end-of-instance]
[mk-app] #5219 or #5193 #5210
[inst-discovered] theory-solving 0x0 basic# ; #5211
[mk-app] #5221 = #5211 #5219
[instance] 0x0 #5221
[attach-enode] #5221 0
[end-of-instance]
[mk-app] #5221 and #5220 #5219
[mk-app] #5222 not #5191
[mk-app] #5223 or #5222 #5221
[mk-app] #5224 => #5191 #5221
[inst-discovered] theory-solving 0x0 basic# ; #5224
[mk-app] #5225 = #5224 #5223
[instance] 0x0 #5225
[attach-enode] #5225 0
[end-of-instance]
[mk-quant] #5224 user_vstd__std_specs__range__axiom_spec_range_next_u32_0 1 #5214 #5223
[attach-var-names] #5224 (|range!| ; |Poly|)
[mk-app] #5225 not #5189
[mk-app] #5226 or #5225 #5224
[mk-app] #5227 => #5189 #5224
[inst-discovered] theory-solving 0x0 basic# ; #5227
[mk-app] #5228 = #5227 #5226
[instance] 0x0 #5228
[attach-enode] #5228 0
[end-of-instance]
[mk-app] #5227 tr_bound%core!clone.Clone. #120 #203
[mk-app] #5228 tr_bound%core!cmp.PartialEq. #120 #203 #120 #203
[mk-app] #5229 tr_bound%core!cmp.PartialOrd. #120 #203 #120 #203
[mk-app] #5230 fuel_bool_default #822
[mk-app] #5231 fuel_bool #822
[mk-app] #5232 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #203 #32 #33
[mk-app] #5233 = #5232 #5034
[mk-app] #5234 pattern #5232
[mk-quant] #5235 internal_vstd!std_specs.range.impl&__24.spec_is_lt.?_definition 2 #5234 #5233
[attach-var-names] #5235 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5236 => #5231 #5235
[mk-app] #5237 <= #186 #674
[mk-app] #5238 not #5237
[inst-discovered] theory-solving 0x0 arith# ; #5033
[mk-app] #5239 = #5033 #5238
[instance] 0x0 #5239
[attach-enode] #5239 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5237
[mk-app] #5239 = #5237 #5041
[instance] 0x0 #5239
[attach-enode] #5239 0
[end-of-instance]
[mk-app] #5239 = #5232 #5043
[mk-quant] #5240 internal_vstd!std_specs.range.impl&__24.spec_is_lt.?_definition 2 #5234 #5239
[attach-var-names] #5240 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5237 not #5231
[mk-app] #5238 or #5237 #5240
[mk-app] #5241 => #5231 #5240
[inst-discovered] theory-solving 0x0 basic# ; #5241
[mk-app] #5242 = #5241 #5238
[instance] 0x0 #5242
[attach-enode] #5242 0
[end-of-instance]
[mk-app] #5241 fuel_bool_default #823
[mk-app] #5242 fuel_bool #823
[mk-app] #5243 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #203 #32 #33
[mk-app] #5244 = #5243 #5049
[mk-app] #5245 pattern #5243
[mk-quant] #5246 internal_vstd!std_specs.range.impl&__24.spec_steps_between_int.?_definition 2 #5245 #5244
[attach-var-names] #5246 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5247 => #5242 #5246
[mk-app] #5248 not #5242
[mk-app] #5249 or #5248 #5246
[inst-discovered] theory-solving 0x0 basic# ; #5247
[mk-app] #5250 = #5247 #5249
[instance] 0x0 #5250
[attach-enode] #5250 0
[end-of-instance]
[mk-app] #5250 fuel_bool_default #825
[mk-app] #5251 fuel_bool #825
[mk-app] #5252 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #203 #32 #33
[mk-app] #5253 uHi #269
[mk-app] #5254 - #5253 #289
[mk-app] #5255 <= #5063 #5254
[mk-app] #5256 uClip #269 #5063
[mk-app] #5257 I #5256
[mk-app] #5258 core!option.Option./Some #5257
[mk-app] #5259 if #5255 #5258 #1714
[mk-app] #5260 Poly%core!option.Option. #5259
[mk-app] #5261 = #5252 #5260
[mk-app] #5262 pattern #5252
[mk-quant] #5263 internal_vstd!std_specs.range.impl&__24.spec_forward_checked_int.?_definition 2 #5262 #5261
[attach-var-names] #5263 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5264 => #5251 #5263
[attach-meaning] #363 arith (- 1)
[mk-app] #5265 * #363 #289
[mk-app] #5266 + #5253 #5265
[inst-discovered] theory-solving 0x0 arith# ; #5254
[mk-app] #5267 = #5254 #5266
[instance] 0x0 #5267
[attach-enode] #5267 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5265
[mk-app] #5267 = #5265 #363
[instance] 0x0 #5267
[attach-enode] #5267 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #5267 + #363 #5253
[mk-app] #5268 + #5253 #363
[inst-discovered] theory-solving 0x0 arith# ; #5268
[mk-app] #5269 = #5268 #5267
[instance] 0x0 #5269
[attach-enode] #5269 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #5268 * #363 #5253
[attach-meaning] #363 arith (- 1)
[mk-app] #5269 + #5063 #5268
[mk-app] #5270 <= #5269 #363
[mk-app] #5271 <= #5063 #5267
[inst-discovered] theory-solving 0x0 arith# ; #5271
[mk-app] #5272 = #5271 #5270
[instance] 0x0 #5272
[attach-enode] #5272 0
[end-of-instance]
[mk-app] #5271 if #5270 #5258 #1714
[mk-app] #5272 Poly%core!option.Option. #5271
[mk-app] #5273 = #5252 #5272
[mk-quant] #5274 internal_vstd!std_specs.range.impl&__24.spec_forward_checked_int.?_definition 2 #5262 #5273
[attach-var-names] #5274 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5267 not #5251
[mk-app] #5265 or #5267 #5274
[mk-app] #5266 => #5251 #5274
[inst-discovered] theory-solving 0x0 basic# ; #5266
[mk-app] #5275 = #5266 #5265
[instance] 0x0 #5275
[attach-enode] #5275 0
[end-of-instance]
[mk-app] #5266 fuel_bool_default #824
[mk-app] #5275 fuel_bool #824
[mk-app] #5276 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #203 #32 #33
[mk-app] #5277 = #5276 #5252
[mk-app] #5278 pattern #5276
[mk-quant] #5279 internal_vstd!std_specs.range.impl&__24.spec_forward_checked.?_definition 2 #5278 #5277
[attach-var-names] #5279 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5280 => #5275 #5279
[mk-app] #5281 not #5275
[mk-app] #5282 or #5281 #5279
[inst-discovered] theory-solving 0x0 basic# ; #5280
[mk-app] #5283 = #5280 #5282
[instance] 0x0 #5283
[attach-enode] #5283 0
[end-of-instance]
[mk-app] #5283 tr_bound%core!iter.range.Step. #120 #203
[mk-app] #5284 tr_bound%vstd!std_specs.iter.StepSpec. #120 #203
[mk-app] #5285 fuel_bool #826
[mk-app] #5286 TYPE%core!ops.range.Range. #120 #203
[mk-app] #5287 has_type #33 #5286
[mk-app] #5288 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #203 #2005 #2017
[mk-app] #5289 %B #5288
[mk-app] #5290 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #203 #2005 #5102
[mk-app] #5291 %Poly%core!option.Option. #5290
[mk-app] #5292 is-core!option.Option./Some #5291
[mk-app] #5293 Poly%core!option.Option. #5291
[mk-app] #5294 %Poly%core!option.Option. #5293
[mk-app] #5295 core!option.Option./Some/0 #120 #203 #5294
[mk-app] #5296 %I #5295
[mk-app] #5297 vstd!std_specs.range.spec_range_next.? #120 #203 #33
[mk-app] #5298 I #5296
[mk-app] #5299 core!ops.range.Range./Range #5298 #2017
[mk-app] #5300 Poly%core!ops.range.Range. #5299
[mk-app] #5301 tuple%2./tuple%2 #5300 #5115
[mk-app] #5302 = #5297 #5301
[mk-app] #5303 => #5292 #5302
[mk-app] #5304 => #5289 #5303
[mk-app] #5305 not #5289
[mk-app] #5306 = #5297 #5121
[mk-app] #5307 => #5305 #5306
[mk-app] #5308 and #5304 #5307
[mk-app] #5309 => #5287 #5308
[mk-app] #5310 pattern #5297
[mk-quant] #5311 user_vstd__std_specs__range__axiom_spec_range_next_usize_0 1 #5310 #5309
[attach-var-names] #5311 (|range!| ; |Poly|)
[mk-app] #5312 => #5285 #5311
[mk-app] #5313 is #5291
[inst-discovered] theory-solving 0x0 datatype# ; #5292
[mk-app] #5314 = #5292 #5313
[instance] 0x0 #5314
[attach-enode] #5314 0
[end-of-instance]
[mk-app] #5314 not #5313
[mk-app] #5315 or #5314 #5302
[mk-app] #5316 => #5313 #5302
[inst-discovered] theory-solving 0x0 basic# ; #5316
[mk-app] #5317 = #5316 #5315
[instance] 0x0 #5317
[attach-enode] #5317 0
[end-of-instance]
[mk-app] #5316 or #5305 #5314 #5302
[mk-app] #5317 => #5289 #5315
[inst-discovered] theory-solving 0x0 basic# ; #5317
[mk-app] #5318 = #5317 #5316
[instance] 0x0 #5318
[attach-enode] #5318 0
[end-of-instance]
[mk-app] #5315 or #5289 #5306
[inst-discovered] theory-solving 0x0 basic# ; #5307
[mk-app] #5317 = #5307 #5315
[instance] 0x0 #5317
[attach-enode] #5317 0
[end-of-instance]
[mk-app] #5317 and #5316 #5315
[mk-app] #5318 not #5287
[mk-app] #5319 or #5318 #5317
[mk-app] #5320 => #5287 #5317
[inst-discovered] theory-solving 0x0 basic# ; #5320
[mk-app] #5321 = #5320 #5319
[instance] 0x0 #5321
[attach-enode] #5321 0
[end-of-instance]
[mk-quant] #5320 user_vstd__std_specs__range__axiom_spec_range_next_usize_0 1 #5310 #5319
[attach-var-names] #5320 (|range!| ; |Poly|)
[mk-app] #5321 not #5285
[mk-app] #5322 or #5321 #5320
[mk-app] #5323 => #5285 #5320
[inst-discovered] theory-solving 0x0 basic# ; #5323
[mk-app] #5324 = #5323 #5322
[instance] 0x0 #5324
[attach-enode] #5324 0
[end-of-instance]
[mk-app] #5323 tr_bound%core!clone.Clone. #120 #211
[mk-app] #5324 tr_bound%core!cmp.PartialEq. #120 #211 #120 #211
[mk-app] #5325 tr_bound%core!cmp.PartialOrd. #120 #211 #120 #211
[mk-app] #5326 fuel_bool_default #827
[mk-app] #5327 fuel_bool #827
[mk-app] #5328 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #211 #32 #33
[mk-app] #5329 = #5328 #5034
[mk-app] #5330 pattern #5328
[mk-quant] #5331 internal_vstd!std_specs.range.impl&__30.spec_is_lt.?_definition 2 #5330 #5329
[attach-var-names] #5331 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5332 => #5327 #5331
[mk-app] #5333 <= #186 #674
[mk-app] #5334 not #5333
[inst-discovered] theory-solving 0x0 arith# ; #5033
[mk-app] #5335 = #5033 #5334
[instance] 0x0 #5335
[attach-enode] #5335 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5333
[mk-app] #5335 = #5333 #5041
[instance] 0x0 #5335
[attach-enode] #5335 0
[end-of-instance]
[mk-app] #5335 = #5328 #5043
[mk-quant] #5336 internal_vstd!std_specs.range.impl&__30.spec_is_lt.?_definition 2 #5330 #5335
[attach-var-names] #5336 (|other!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5333 not #5327
[mk-app] #5334 or #5333 #5336
[mk-app] #5337 => #5327 #5336
[inst-discovered] theory-solving 0x0 basic# ; #5337
[mk-app] #5338 = #5337 #5334
[instance] 0x0 #5338
[attach-enode] #5338 0
[end-of-instance]
[mk-app] #5337 fuel_bool_default #828
[mk-app] #5338 fuel_bool #828
[mk-app] #5339 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #120 #211 #32 #33
[mk-app] #5340 = #5339 #5049
[mk-app] #5341 pattern #5339
[mk-quant] #5342 internal_vstd!std_specs.range.impl&__30.spec_steps_between_int.?_definition 2 #5341 #5340
[attach-var-names] #5342 (|end!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5343 => #5338 #5342
[mk-app] #5344 not #5338
[mk-app] #5345 or #5344 #5342
[inst-discovered] theory-solving 0x0 basic# ; #5343
[mk-app] #5346 = #5343 #5345
[instance] 0x0 #5346
[attach-enode] #5346 0
[end-of-instance]
[mk-app] #5346 fuel_bool_default #830
[mk-app] #5347 fuel_bool #830
[mk-app] #5348 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #120 #211 #32 #33
[mk-app] #5349 iHi #269
[mk-app] #5350 - #5349 #289
[mk-app] #5351 <= #5063 #5350
[mk-app] #5352 iClip #269 #5063
[mk-app] #5353 I #5352
[mk-app] #5354 core!option.Option./Some #5353
[mk-app] #5355 if #5351 #5354 #1714
[mk-app] #5356 Poly%core!option.Option. #5355
[mk-app] #5357 = #5348 #5356
[mk-app] #5358 pattern #5348
[mk-quant] #5359 internal_vstd!std_specs.range.impl&__30.spec_forward_checked_int.?_definition 2 #5358 #5357
[attach-var-names] #5359 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5360 => #5347 #5359
[attach-meaning] #363 arith (- 1)
[mk-app] #5361 * #363 #289
[mk-app] #5362 + #5349 #5361
[inst-discovered] theory-solving 0x0 arith# ; #5350
[mk-app] #5363 = #5350 #5362
[instance] 0x0 #5363
[attach-enode] #5363 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #5361
[mk-app] #5363 = #5361 #363
[instance] 0x0 #5363
[attach-enode] #5363 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #5363 + #363 #5349
[mk-app] #5364 + #5349 #363
[inst-discovered] theory-solving 0x0 arith# ; #5364
[mk-app] #5365 = #5364 #5363
[instance] 0x0 #5365
[attach-enode] #5365 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #5364 * #363 #5349
[attach-meaning] #363 arith (- 1)
[mk-app] #5365 + #5063 #5364
[mk-app] #5366 <= #5365 #363
[mk-app] #5367 <= #5063 #5363
[inst-discovered] theory-solving 0x0 arith# ; #5367
[mk-app] #5368 = #5367 #5366
[instance] 0x0 #5368
[attach-enode] #5368 0
[end-of-instance]
[mk-app] #5367 if #5366 #5354 #1714
[mk-app] #5368 Poly%core!option.Option. #5367
[mk-app] #5369 = #5348 #5368
[mk-quant] #5370 internal_vstd!std_specs.range.impl&__30.spec_forward_checked_int.?_definition 2 #5358 #5369
[attach-var-names] #5370 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5363 not #5347
[mk-app] #5361 or #5363 #5370
[mk-app] #5362 => #5347 #5370
[inst-discovered] theory-solving 0x0 basic# ; #5362
[mk-app] #5371 = #5362 #5361
[instance] 0x0 #5371
[attach-enode] #5371 0
[end-of-instance]
[mk-app] #5362 fuel_bool_default #829
[mk-app] #5371 fuel_bool #829
[mk-app] #5372 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #211 #32 #33
[mk-app] #5373 = #5372 #5348
[mk-app] #5374 pattern #5372
[mk-quant] #5375 internal_vstd!std_specs.range.impl&__30.spec_forward_checked.?_definition 2 #5374 #5373
[attach-var-names] #5375 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5376 => #5371 #5375
[mk-app] #5377 not #5371
[mk-app] #5378 or #5377 #5375
[inst-discovered] theory-solving 0x0 basic# ; #5376
[mk-app] #5379 = #5376 #5378
[instance] 0x0 #5379
[attach-enode] #5379 0
[end-of-instance]
[mk-app] #5379 tr_bound%core!iter.range.Step. #120 #211
[mk-app] #5380 tr_bound%vstd!std_specs.iter.StepSpec. #120 #211
[mk-app] #5381 fuel_bool #831
[mk-app] #5382 TYPE%core!ops.range.Range. #120 #211
[mk-app] #5383 has_type #33 #5382
[mk-app] #5384 vstd!std_specs.iter.StepSpec.spec_is_lt.? #120 #211 #2005 #2017
[mk-app] #5385 %B #5384
[mk-app] #5386 vstd!std_specs.iter.StepSpec.spec_forward_checked.? #120 #211 #2005 #5102
[mk-app] #5387 %Poly%core!option.Option. #5386
[mk-app] #5388 is-core!option.Option./Some #5387
[mk-app] #5389 Poly%core!option.Option. #5387
[mk-app] #5390 %Poly%core!option.Option. #5389
[mk-app] #5391 core!option.Option./Some/0 #120 #211 #5390
[mk-app] #5392 %I #5391
[mk-app] #5393 vstd!std_specs.range.spec_range_next.? #120 #211 #33
[mk-app] #5394 I #5392
[mk-app] #5395 core!ops.range.Range./Range #5394 #2017
[mk-app] #5396 Poly%core!ops.range.Range. #5395
[mk-app] #5397 tuple%2./tuple%2 #5396 #5115
[mk-app] #5398 = #5393 #5397
[mk-app] #5399 => #5388 #5398
[mk-app] #5400 => #5385 #5399
[mk-app] #5401 not #5385
[mk-app] #5402 = #5393 #5121
[mk-app] #5403 => #5401 #5402
[mk-app] #5404 and #5400 #5403
[mk-app] #5405 => #5383 #5404
[mk-app] #5406 pattern #5393
[mk-quant] #5407 user_vstd__std_specs__range__axiom_spec_range_next_isize_0 1 #5406 #5405
[attach-var-names] #5407 (|range!| ; |Poly|)
[mk-app] #5408 => #5381 #5407
[mk-app] #5409 is #5387
[inst-discovered] theory-solving 0x0 datatype# ; #5388
[mk-app] #5410 = #5388 #5409
[instance] 0x0 #5410
[attach-enode] #5410 0
[end-of-instance]
[mk-app] #5410 not #5409
[mk-app] #5411 or #5410 #5398
[mk-app] #5412 => #5409 #5398
[inst-discovered] theory-solving 0x0 basic# ; #5412
[mk-app] #5413 = #5412 #5411
[instance] 0x0 #5413
[attach-enode] #5413 0
[end-of-instance]
[mk-app] #5412 or #5401 #5410 #5398
[mk-app] #5413 => #5385 #5411
[inst-discovered] theory-solving 0x0 basic# ; #5413
[mk-app] #5414 = #5413 #5412
[instance] 0x0 #5414
[attach-enode] #5414 0
[end-of-instance]
[mk-app] #5411 or #5385 #5402
[inst-discovered] theory-solving 0x0 basic# ; #5403
[mk-app] #5413 = #5403 #5411
[instance] 0x0 #5413
[attach-enode] #5413 0
[end-of-instance]
[mk-app] #5413 and #5412 #5411
[mk-app] #5414 not #5383
[mk-app] #5415 or #5414 #5413
[mk-app] #5416 => #5383 #5413
[inst-discovered] theory-solving 0x0 basic# ; #5416
[mk-app] #5417 = #5416 #5415
[instance] 0x0 #5417
[attach-enode] #5417 0
[end-of-instance]
[mk-quant] #5416 user_vstd__std_specs__range__axiom_spec_range_next_isize_0 1 #5406 #5415
[attach-var-names] #5416 (|range!| ; |Poly|)
[mk-app] #5417 not #5381
[mk-app] #5418 or #5417 #5416
[mk-app] #5419 => #5381 #5416
[inst-discovered] theory-solving 0x0 basic# ; #5419
[mk-app] #5420 = #5419 #5418
[instance] 0x0 #5420
[attach-enode] #5420 0
[end-of-instance]
[mk-app] #5419 TYPE%alloc!vec.Vec. #1216 #1217 #64 #65
[mk-app] #5420 has_type #33 #5419
[mk-app] #5421 vstd!std_specs.vec.spec_vec_len.? #1216 #1217 #64 #65 #33
[mk-app] #5422 uInv #269 #5421
[mk-app] #5423 => #5420 #5422
[mk-app] #5424 pattern #5421
[mk-quant] #5425 internal_vstd!std_specs.vec.spec_vec_len.?_pre_post_definition 5 #5424 #5423
[attach-var-names] #5425 (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5426 not #5420
[mk-app] #5427 or #5426 #5422
[inst-discovered] theory-solving 0x0 basic# ; #5423
[mk-app] #5428 = #5423 #5427
[instance] 0x0 #5428
[attach-enode] #5428 0
[end-of-instance]
[mk-quant] #5428 internal_vstd!std_specs.vec.spec_vec_len.?_pre_post_definition 5 #5424 #5427
[attach-var-names] #5428 (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5429 tr_bound%vstd!view.View. #120 #3270
[mk-app] #5430 => #3269 #5429
[mk-app] #5431 pattern #5429
[mk-quant] #5432 internal_vstd__view__impl&__8_trait_impl_definition 4 #5431 #5430
[attach-var-names] #5432 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5433 or #3276 #5429
[inst-discovered] theory-solving 0x0 basic# ; #5430
[mk-app] #5434 = #5430 #5433
[instance] 0x0 #5434
[attach-enode] #5434 0
[end-of-instance]
[mk-quant] #5434 internal_vstd__view__impl&__8_trait_impl_definition 4 #5431 #5433
[attach-var-names] #5434 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5435 fuel_bool #840
[mk-app] #5436 and #3987 #4513
[mk-app] #5437 tr_bound%core!alloc.Allocator. #64 #65
[mk-app] #5438 and #5436 #5437
[mk-app] #5439 vstd!view.View.view.? #120 #5419 #33
[mk-app] #5440 vstd!seq.Seq.len.? #1216 #1217 #5439
[mk-app] #5441 = #5421 #5440
[mk-app] #5442 => #5438 #5441
[mk-app] #5443 => #5420 #5442
[mk-quant] #5444 user_vstd__std_specs__vec__axiom_spec_len_0 5 #5424 #5443
[attach-var-names] #5444 (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5445 => #5435 #5444
[mk-app] #5446 and #3987 #4513 #5437
[mk-app] #5447 not #5446
[mk-app] #5448 or #5447 #5441
[mk-app] #5449 => #5446 #5441
[inst-discovered] theory-solving 0x0 basic# ; #5449
[mk-app] #5450 = #5449 #5448
[instance] 0x0 #5450
[attach-enode] #5450 0
[end-of-instance]
[mk-app] #5449 or #5426 #5447 #5441
[mk-app] #5450 => #5420 #5448
[inst-discovered] theory-solving 0x0 basic# ; #5450
[mk-app] #5451 = #5450 #5449
[instance] 0x0 #5451
[attach-enode] #5451 0
[end-of-instance]
[mk-quant] #5448 user_vstd__std_specs__vec__axiom_spec_len_0 5 #5424 #5449
[attach-var-names] #5448 (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5450 not #5435
[mk-app] #5451 or #5450 #5448
[mk-app] #5452 => #5435 #5448
[inst-discovered] theory-solving 0x0 basic# ; #5452
[mk-app] #5453 = #5452 #5451
[instance] 0x0 #5453
[attach-enode] #5453 0
[end-of-instance]
[mk-app] #5452 tr_bound%core!alloc.Allocator. #120 #1321
[mk-app] #5453 fuel_bool #843
[mk-app] #5454 TYPE%alloc!vec.Vec. #1249 #263 #120 #1321
[mk-app] #5455 has_type #32 #5454
[mk-app] #5456 and #5455 #185
[mk-app] #5457 vstd!std_specs.vec.spec_vec_len.? #1249 #263 #120 #1321 #32
[mk-app] #5458 < #186 #5457
[mk-app] #5459 and #510 #5458
[mk-app] #5460 has_resolved #120 #5454 #32
[mk-app] #5461 vstd!view.View.view.? #120 #5454 #32
[mk-app] #5462 vstd!seq.Seq.index.? #1249 #263 #5461 #33
[mk-app] #5463 has_resolved #1249 #263 #5462
[mk-app] #5464 => #5460 #5463
[mk-app] #5465 => #5459 #5464
[mk-app] #5466 => #3106 #5465
[mk-app] #5467 => #5456 #5466
[mk-app] #5468 pattern #5460 #5462
[mk-quant] #5469 user_vstd__std_specs__vec__axiom_vec_has_resolved_0 4 #5468 #5467
[attach-var-names] #5469 (|i!| ; |Poly|) (|vec!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5470 => #5453 #5469
[attach-meaning] #363 arith (- 1)
[mk-app] #5471 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #5471 = #510 #514
[instance] 0x0 #5471
[attach-enode] #5471 0
[end-of-instance]
[mk-app] #5471 <= #5457 #186
[mk-app] #5472 not #5471
[inst-discovered] theory-solving 0x0 arith# ; #5458
[mk-app] #5473 = #5458 #5472
[instance] 0x0 #5473
[attach-enode] #5473 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #5473 * #363 #186
[mk-app] #5474 + #5473 #5457
[attach-meaning] #363 arith (- 1)
[mk-app] #5475 * #363 #5457
[mk-app] #5476 + #186 #5475
[mk-app] #5473 >= #5476 #334
[inst-discovered] theory-solving 0x0 arith# ; #5471
[mk-app] #5474 = #5471 #5473
[instance] 0x0 #5474
[attach-enode] #5474 0
[end-of-instance]
[mk-app] #5474 not #5473
[mk-app] #5477 and #514 #5474
[mk-app] #5478 not #5460
[mk-app] #5479 or #5478 #5463
[inst-discovered] theory-solving 0x0 basic# ; #5464
[mk-app] #5480 = #5464 #5479
[instance] 0x0 #5480
[attach-enode] #5480 0
[end-of-instance]
[mk-app] #5480 not #5477
[mk-app] #5481 or #5480 #5478 #5463
[mk-app] #5482 => #5477 #5479
[inst-discovered] theory-solving 0x0 basic# ; #5482
[mk-app] #5483 = #5482 #5481
[instance] 0x0 #5483
[attach-enode] #5483 0
[end-of-instance]
[mk-app] #5479 or #4044 #5480 #5478 #5463
[mk-app] #5482 => #3106 #5481
[inst-discovered] theory-solving 0x0 basic# ; #5482
[mk-app] #5483 = #5482 #5479
[instance] 0x0 #5483
[attach-enode] #5483 0
[end-of-instance]
[mk-app] #5481 not #5456
[mk-app] #5482 or #5481 #4044 #5480 #5478 #5463
[mk-app] #5483 => #5456 #5479
[inst-discovered] theory-solving 0x0 basic# ; #5483
[mk-app] #5484 = #5483 #5482
[instance] 0x0 #5484
[attach-enode] #5484 0
[end-of-instance]
[mk-quant] #5479 user_vstd__std_specs__vec__axiom_vec_has_resolved_0 4 #5468 #5482
[attach-var-names] #5479 (|i!| ; |Poly|) (|vec!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5471 not #5453
[mk-app] #5472 or #5471 #5479
[mk-app] #5483 => #5453 #5479
[inst-discovered] theory-solving 0x0 basic# ; #5483
[mk-app] #5484 = #5483 #5472
[instance] 0x0 #5484
[attach-enode] #5484 0
[end-of-instance]
[mk-app] #5483 fuel_bool #844
[mk-app] #5484 TYPE%alloc!vec.Vec. #64 #65 #120 #1321
[mk-app] #5485 has_type #33 #5484
[mk-app] #5486 vstd!view.View.view.? #120 #5484 #33
[mk-app] #5487 height #5486
[mk-app] #5488 height_lt #5487 #4660
[mk-app] #5489 => #4513 #5488
[mk-app] #5490 => #5485 #5489
[mk-app] #5491 pattern #5487
[mk-quant] #5492 user_vstd__std_specs__vec__axiom_vec_decreases_to_view_0 3 #5491 #5490
[attach-var-names] #5492 (|v!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5493 => #5483 #5492
[mk-app] #5494 or #4521 #5488
[inst-discovered] theory-solving 0x0 basic# ; #5489
[mk-app] #5495 = #5489 #5494
[instance] 0x0 #5495
[attach-enode] #5495 0
[end-of-instance]
[mk-app] #5495 not #5485
[mk-app] #5496 or #5495 #4521 #5488
[mk-app] #5497 => #5485 #5494
[inst-discovered] theory-solving 0x0 basic# ; #5497
[mk-app] #5498 = #5497 #5496
[instance] 0x0 #5498
[attach-enode] #5498 0
[end-of-instance]
[mk-quant] #5494 user_vstd__std_specs__vec__axiom_vec_decreases_to_view_0 3 #5491 #5496
[attach-var-names] #5494 (|v!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5497 not #5483
[mk-app] #5498 or #5497 #5494
[mk-app] #5499 => #5483 #5494
[inst-discovered] theory-solving 0x0 basic# ; #5499
[mk-app] #5500 = #5499 #5498
[instance] 0x0 #5500
[attach-enode] #5500 0
[end-of-instance]
[mk-app] #5499 tr_bound%core!marker.Tuple. #120 #1184
[mk-app] #5500 tr_bound%core!clone.Clone. #120 #1184
[mk-app] #5501 tr_bound%core!marker.Copy. #120 #1184
[mk-app] #5502 tr_bound%core!marker.Tuple. #3330 #3331
[mk-app] #5503 pattern #5502
[mk-quant] #5504 internal_crate__impl_tuple&__Tuple1_trait_impl_definition 2 #5503 #5502
[attach-var-names] #5504 (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #5505 tr_bound%core!clone.Clone. #3330 #3331
[mk-app] #5506 => #2992 #5505
[mk-app] #5507 pattern #5505
[mk-quant] #5508 internal_crate__impl_tuple&__Clone1_trait_impl_definition 2 #5507 #5506
[attach-var-names] #5508 (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #5509 or #2996 #5505
[inst-discovered] theory-solving 0x0 basic# ; #5506
[mk-app] #5510 = #5506 #5509
[instance] 0x0 #5510
[attach-enode] #5510 0
[end-of-instance]
[mk-quant] #5510 internal_crate__impl_tuple&__Clone1_trait_impl_definition 2 #5507 #5509
[attach-var-names] #5510 (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #5511 tr_bound%core!marker.Copy. #3330 #3331
[mk-app] #5512 => #2999 #5511
[mk-app] #5513 pattern #5511
[mk-quant] #5514 internal_crate__impl_tuple&__Copy1_trait_impl_definition 2 #5513 #5512
[attach-var-names] #5514 (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #5515 or #3003 #5511
[inst-discovered] theory-solving 0x0 basic# ; #5512
[mk-app] #5516 = #5512 #5515
[instance] 0x0 #5516
[attach-enode] #5516 0
[end-of-instance]
[mk-quant] #5516 internal_crate__impl_tuple&__Copy1_trait_impl_definition 2 #5513 #5515
[attach-var-names] #5516 (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #5517 tr_bound%core!marker.Tuple. #3330 #3349
[mk-app] #5518 pattern #5517
[mk-quant] #5519 internal_crate__impl_tuple&__Tuple2_trait_impl_definition 4 #5518 #5517
[attach-var-names] #5519 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #5520 tr_bound%core!clone.Clone. #1249 #263
[mk-app] #5521 and #5520 #2992
[mk-app] #5522 tr_bound%core!clone.Clone. #3330 #3349
[mk-app] #5523 => #5521 #5522
[mk-app] #5524 pattern #5522
[mk-quant] #5525 internal_crate__impl_tuple&__Clone2_trait_impl_definition 4 #5524 #5523
[attach-var-names] #5525 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #5526 not #5521
[mk-app] #5527 or #5526 #5522
[inst-discovered] theory-solving 0x0 basic# ; #5523
[mk-app] #5528 = #5523 #5527
[instance] 0x0 #5528
[attach-enode] #5528 0
[end-of-instance]
[mk-quant] #5528 internal_crate__impl_tuple&__Clone2_trait_impl_definition 4 #5524 #5527
[attach-var-names] #5528 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #5529 tr_bound%core!marker.Copy. #1249 #263
[mk-app] #5530 and #5529 #2999
[mk-app] #5531 tr_bound%core!marker.Copy. #3330 #3349
[mk-app] #5532 => #5530 #5531
[mk-app] #5533 pattern #5531
[mk-quant] #5534 internal_crate__impl_tuple&__Copy2_trait_impl_definition 4 #5533 #5532
[attach-var-names] #5534 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #5535 not #5530
[mk-app] #5536 or #5535 #5531
[inst-discovered] theory-solving 0x0 basic# ; #5532
[mk-app] #5537 = #5532 #5536
[instance] 0x0 #5537
[attach-enode] #5537 0
[end-of-instance]
[mk-quant] #5537 internal_crate__impl_tuple&__Copy2_trait_impl_definition 4 #5533 #5536
[attach-var-names] #5537 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #5538 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #64 #65 #33
[mk-app] #5539 has_type #5538 #135
[mk-app] #5540 => #68 #5539
[mk-app] #5541 pattern #5538
[mk-quant] #5542 internal_vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.?_pre_post_definition 3 #5541 #5540
[attach-var-names] #5542 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5543 or #1726 #5539
[inst-discovered] theory-solving 0x0 basic# ; #5540
[mk-app] #5544 = #5540 #5543
[instance] 0x0 #5544
[attach-enode] #5544 0
[end-of-instance]
[mk-quant] #5544 internal_vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.?_pre_post_definition 3 #5541 #5543
[attach-var-names] #5544 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5545 vstd!std_specs.iter.IteratorSpec.will_return_none.? #64 #65 #33
[mk-app] #5546 has_type #5545 #135
[mk-app] #5547 => #68 #5546
[mk-app] #5548 pattern #5545
[mk-quant] #5549 internal_vstd!std_specs.iter.IteratorSpec.will_return_none.?_pre_post_definition 3 #5548 #5547
[attach-var-names] #5549 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5550 or #1726 #5546
[inst-discovered] theory-solving 0x0 basic# ; #5547
[mk-app] #5551 = #5547 #5550
[instance] 0x0 #5551
[attach-enode] #5551 0
[end-of-instance]
[mk-quant] #5551 internal_vstd!std_specs.iter.IteratorSpec.will_return_none.?_pre_post_definition 3 #5548 #5550
[attach-var-names] #5551 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5552 vstd!std_specs.iter.IteratorSpec.decrease.? #64 #65 #33
[mk-app] #5553 TYPE%core!option.Option. #120 #195
[mk-app] #5554 has_type #5552 #5553
[mk-app] #5555 => #68 #5554
[mk-app] #5556 pattern #5552
[mk-quant] #5557 internal_vstd!std_specs.iter.IteratorSpec.decrease.?_pre_post_definition 3 #5556 #5555
[attach-var-names] #5557 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5558 or #1726 #5554
[inst-discovered] theory-solving 0x0 basic# ; #5555
[mk-app] #5559 = #5555 #5558
[instance] 0x0 #5559
[attach-enode] #5559 0
[end-of-instance]
[mk-quant] #5559 internal_vstd!std_specs.iter.IteratorSpec.decrease.?_pre_post_definition 3 #5556 #5558
[attach-var-names] #5559 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5560 vstd!std_specs.iter.IteratorSpec.remaining.? #64 #65 #33
[mk-app] #5561 has_type #5560 #1943
[mk-app] #5562 => #68 #5561
[mk-app] #5563 pattern #5560
[mk-quant] #5564 internal_vstd!std_specs.iter.IteratorSpec.remaining.?_pre_post_definition 3 #5563 #5562
[attach-var-names] #5564 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5565 or #1726 #5561
[inst-discovered] theory-solving 0x0 basic# ; #5562
[mk-app] #5566 = #5562 #5565
[instance] 0x0 #5566
[attach-enode] #5566 0
[end-of-instance]
[mk-quant] #5566 internal_vstd!std_specs.iter.IteratorSpec.remaining.?_pre_post_definition 3 #5563 #5565
[attach-var-names] #5566 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5567 req%vstd!seq_lib.impl&%0.drop_first. #64 #65 #33
[mk-app] #5568 %%global_location_label%%5
[mk-app] #5569 >= #3876 #289
[mk-app] #5570 => #5568 #5569
[mk-app] #5571 = #5567 #5570
[mk-app] #5572 pattern #5567
[mk-quant] #5573 internal_req__vstd!seq_lib.impl&__0.drop_first._definition 3 #5572 #5571
[attach-var-names] #5573 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5574 not #5568
[mk-app] #5575 or #5574 #5569
[inst-discovered] theory-solving 0x0 basic# ; #5570
[mk-app] #5576 = #5570 #5575
[instance] 0x0 #5576
[attach-enode] #5576 0
[end-of-instance]
[mk-app] #5576 = #5567 #5575
[mk-quant] #5577 internal_req__vstd!seq_lib.impl&__0.drop_first._definition 3 #5572 #5576
[attach-var-names] #5577 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5578 fuel_bool_default #886
[mk-app] #5579 fuel_bool #886
[mk-app] #5580 vstd!seq_lib.impl&%0.drop_first.? #64 #65 #33
[mk-app] #5581 I #3876
[mk-app] #5582 vstd!seq.Seq.subrange.? #64 #65 #33 #5102 #5581
[mk-app] #5583 = #5580 #5582
[mk-app] #5584 pattern #5580
[mk-quant] #5585 internal_vstd!seq_lib.impl&__0.drop_first.?_definition 3 #5584 #5583
[attach-var-names] #5585 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5586 => #5579 #5585
[mk-app] #5587 not #5579
[mk-app] #5588 or #5587 #5585
[inst-discovered] theory-solving 0x0 basic# ; #5586
[mk-app] #5589 = #5586 #5588
[instance] 0x0 #5589
[attach-enode] #5589 0
[end-of-instance]
[mk-app] #5589 has_type #5580 #3874
[mk-app] #5590 => #3875 #5589
[mk-quant] #5591 internal_vstd!seq_lib.impl&__0.drop_first.?_pre_post_definition 3 #5584 #5590
[attach-var-names] #5591 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5592 or #3881 #5589
[inst-discovered] theory-solving 0x0 basic# ; #5590
[mk-app] #5593 = #5590 #5592
[instance] 0x0 #5593
[attach-enode] #5593 0
[end-of-instance]
[mk-quant] #5593 internal_vstd!seq_lib.impl&__0.drop_first.?_pre_post_definition 3 #5584 #5592
[attach-var-names] #5593 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #5594 vstd!std_specs.option.OptionAdditionalFns.arrow_0.? #1216 #1217 #64 #65 #33
[mk-app] #5595 has_type #5594 #65
[mk-app] #5596 => #1803 #5595
[mk-app] #5597 pattern #5594
[mk-quant] #5598 internal_vstd!std_specs.option.OptionAdditionalFns.arrow_0.?_pre_post_definition 5 #5597 #5596
[attach-var-names] #5598 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5599 or #1810 #5595
[inst-discovered] theory-solving 0x0 basic# ; #5596
[mk-app] #5600 = #5596 #5599
[instance] 0x0 #5600
[attach-enode] #5600 0
[end-of-instance]
[mk-quant] #5600 internal_vstd!std_specs.option.OptionAdditionalFns.arrow_0.?_pre_post_definition 5 #5597 #5599
[attach-var-names] #5600 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5601 fuel_bool_default #803
[mk-app] #5602 fuel_bool #803
[mk-app] #5603 vstd!std_specs.option.OptionAdditionalFns.arrow_0.? #120 #1703 #64 #65 #33
[mk-app] #5604 = #5603 #1740
[mk-app] #5605 => #4513 #5604
[mk-app] #5606 pattern #5603
[mk-quant] #5607 internal_vstd!std_specs.option.impl&__0.arrow_0.?_definition 3 #5606 #5605
[attach-var-names] #5607 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5608 => #5602 #5607
[mk-app] #5609 or #4521 #5604
[inst-discovered] theory-solving 0x0 basic# ; #5605
[mk-app] #5610 = #5605 #5609
[instance] 0x0 #5610
[attach-enode] #5610 0
[end-of-instance]
[mk-quant] #5610 internal_vstd!std_specs.option.impl&__0.arrow_0.?_definition 3 #5606 #5609
[attach-var-names] #5610 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5611 not #5602
[mk-app] #5612 or #5611 #5610
[mk-app] #5613 => #5602 #5610
[inst-discovered] theory-solving 0x0 basic# ; #5613
[mk-app] #5614 = #5613 #5612
[instance] 0x0 #5614
[attach-enode] #5614 0
[end-of-instance]
[mk-app] #5613 tr_bound%vstd!std_specs.option.OptionAdditionalFns. #120 #1716 #44 #45
[mk-app] #5614 => #2967 #5613
[mk-app] #5615 pattern #5613
[mk-quant] #5616 internal_vstd__std_specs__option__impl&__0_trait_impl_definition 2 #5615 #5614
[attach-var-names] #5616 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5617 or #3188 #5613
[inst-discovered] theory-solving 0x0 basic# ; #5614
[mk-app] #5618 = #5614 #5617
[instance] 0x0 #5618
[attach-enode] #5618 0
[end-of-instance]
[mk-quant] #5618 internal_vstd__std_specs__option__impl&__0_trait_impl_definition 2 #5615 #5617
[attach-var-names] #5618 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5619 ens%core!iter.traits.iterator.Iterator.next. #1249 #263 #32 #33
[mk-app] #5620 TYPE%core!option.Option. #3810 #3819
[mk-app] #5621 has_type #33 #5620
[mk-app] #5622 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #1249 #263 #40
[mk-app] #5623 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #1249 #263 #4443
[mk-app] #5624 = #5622 #5623
[mk-app] #5625 %B #5622
[mk-app] #5626 vstd!std_specs.iter.IteratorSpec.will_return_none.? #1249 #263 #40
[mk-app] #5627 vstd!std_specs.iter.IteratorSpec.will_return_none.? #1249 #263 #4443
[mk-app] #5628 = #5626 #5627
[mk-app] #5629 => #5625 #5628
[mk-app] #5630 vstd!std_specs.iter.IteratorSpec.decrease.? #1249 #263 #4443
[mk-app] #5631 %Poly%core!option.Option. #5630
[mk-app] #5632 is-core!option.Option./Some #5631
[mk-app] #5633 vstd!std_specs.iter.IteratorSpec.decrease.? #1249 #263 #40
[mk-app] #5634 %Poly%core!option.Option. #5633
[mk-app] #5635 is-core!option.Option./Some #5634
[mk-app] #5636 = #5632 #5635
[mk-app] #5637 => #5625 #5636
[mk-app] #5638 vstd!std_specs.iter.IteratorSpec.remaining.? #1249 #263 #4443
[mk-app] #5639 vstd!seq.Seq.len.? #3810 #3819 #5638
[mk-app] #5640 > #5639 #334
[mk-app] #5641 vstd!std_specs.iter.IteratorSpec.remaining.? #1249 #263 #40
[mk-app] #5642 vstd!seq_lib.impl&%0.drop_first.? #3810 #3819 #5638
[mk-app] #5643 = #5641 #5642
[mk-app] #5644 I #334
[mk-app] #5645 vstd!seq.Seq.index.? #3810 #3819 #5638 #5644
[mk-app] #5646 core!option.Option./Some #5645
[mk-app] #5647 = #1705 #5646
[mk-app] #5648 and #5643 #5647
[mk-app] #5649 = #5641 #5638
[mk-app] #5650 = #1705 #1714
[mk-app] #5651 and #5649 #5650
[mk-app] #5652 %B #5626
[mk-app] #5653 and #5651 #5652
[mk-app] #5654 if #5640 #5648 #5653
[mk-app] #5655 => #5625 #5654
[mk-app] #5656 and #5625 #5640
[mk-app] #5657 and #5656 #5635
[mk-app] #5658 core!option.Option./Some/0 #120 #195 #5634
[mk-app] #5659 %I #5658
[mk-app] #5660 <= #334 #5659
[mk-app] #5661 core!option.Option./Some/0 #120 #195 #5631
[mk-app] #5662 %I #5661
[mk-app] #5663 < #5659 #5662
[mk-app] #5664 and #5660 #5663
[mk-app] #5665 => #5657 #5664
[mk-app] #5666 and #5621 #5624 #5629 #5637 #5655 #5665
[mk-app] #5667 = #5619 #5666
[mk-app] #5668 pattern #5619
[mk-quant] #5669 internal_ens__core!iter.traits.iterator.Iterator.next._definition 4 #5668 #5667
[attach-var-names] #5669 (|ret!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5670 not #5625
[mk-app] #5671 or #5670 #5628
[inst-discovered] theory-solving 0x0 basic# ; #5629
[mk-app] #5672 = #5629 #5671
[instance] 0x0 #5672
[attach-enode] #5672 0
[end-of-instance]
[mk-app] #5672 is #5631
[inst-discovered] theory-solving 0x0 datatype# ; #5632
[mk-app] #5673 = #5632 #5672
[instance] 0x0 #5673
[attach-enode] #5673 0
[end-of-instance]
[mk-app] #5673 is #5634
[inst-discovered] theory-solving 0x0 datatype# ; #5635
[mk-app] #5674 = #5635 #5673
[instance] 0x0 #5674
[attach-enode] #5674 0
[end-of-instance]
[mk-app] #5674 = #5672 #5673
[mk-app] #5675 or #5670 #5674
[mk-app] #5676 => #5625 #5674
[inst-discovered] theory-solving 0x0 basic# ; #5676
[mk-app] #5677 = #5676 #5675
[instance] 0x0 #5677
[attach-enode] #5677 0
[end-of-instance]
[mk-app] #5676 <= #5639 #334
[mk-app] #5677 not #5676
[inst-discovered] theory-solving 0x0 arith# ; #5640
[mk-app] #5678 = #5640 #5677
[instance] 0x0 #5678
[attach-enode] #5678 0
[end-of-instance]
[mk-app] #5678 and #5649 #5650 #5652
[mk-app] #5679 if #5676 #5678 #5648
[mk-app] #5680 if #5677 #5648 #5678
[inst-discovered] theory-solving 0x0 basic# ; #5680
[mk-app] #5681 = #5680 #5679
[instance] 0x0 #5681
[attach-enode] #5681 0
[end-of-instance]
[mk-app] #5680 or #5670 #5679
[mk-app] #5681 => #5625 #5679
[inst-discovered] theory-solving 0x0 basic# ; #5681
[mk-app] #5682 = #5681 #5680
[instance] 0x0 #5682
[attach-enode] #5682 0
[end-of-instance]
[mk-app] #5681 and #5625 #5677 #5673
[attach-meaning] #363 arith (- 1)
[mk-app] #5682 * #363 #5659
[mk-app] #5683 >= #5659 #334
[inst-discovered] theory-solving 0x0 arith# ; #5660
[mk-app] #5682 = #5660 #5683
[instance] 0x0 #5682
[attach-enode] #5682 0
[end-of-instance]
[mk-app] #5682 <= #5662 #5659
[mk-app] #5684 not #5682
[inst-discovered] theory-solving 0x0 arith# ; #5663
[mk-app] #5685 = #5663 #5684
[instance] 0x0 #5685
[attach-enode] #5685 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #5685 * #363 #5659
[mk-app] #5686 + #5685 #5662
[attach-meaning] #363 arith (- 1)
[mk-app] #5687 * #363 #5662
[mk-app] #5688 + #5659 #5687
[mk-app] #5685 >= #5688 #334
[inst-discovered] theory-solving 0x0 arith# ; #5682
[mk-app] #5686 = #5682 #5685
[instance] 0x0 #5686
[attach-enode] #5686 0
[end-of-instance]
[mk-app] #5686 not #5685
[mk-app] #5689 and #5683 #5686
[mk-app] #5690 not #5681
[mk-app] #5691 or #5690 #5689
[mk-app] #5692 => #5681 #5689
[inst-discovered] theory-solving 0x0 basic# ; #5692
[mk-app] #5693 = #5692 #5691
[instance] 0x0 #5693
[attach-enode] #5693 0
[end-of-instance]
[mk-app] #5692 and #5621 #5624 #5671 #5675 #5680 #5691
[mk-app] #5693 = #5619 #5692
[mk-quant] #5694 internal_ens__core!iter.traits.iterator.Iterator.next._definition 4 #5668 #5693
[attach-var-names] #5694 (|ret!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5682 has_type #43 #3841
[mk-app] #5684 %Poly%tuple%1. #43
[mk-app] #5695 tuple%1./tuple%1/0 #5684
[mk-app] #5684 fndef_singleton
[mk-app] #5695 F #5684
[mk-app] #5696 closure_req #2955 #3840 #3841 #5695 #43
[mk-app] #5697 => #1 #5696
[mk-app] #5698 => #5682 #5697
[mk-app] #5699 pattern #5696
[mk-quant] #5700 user_core__iter__traits__iterator__Iterator__next_0 3 #5699 #5698
[attach-var-names] #5700 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|closure%$| ; |Poly|)
[inst-discovered] theory-solving 0x0 basic# ; #5697
[mk-app] #5701 = #5697 #5696
[instance] 0x0 #5701
[attach-enode] #5701 0
[end-of-instance]
[mk-app] #5701 not #5682
[mk-app] #5702 or #5701 #5696
[mk-app] #5703 => #5682 #5696
[inst-discovered] theory-solving 0x0 basic# ; #5703
[mk-app] #5704 = #5703 #5702
[instance] 0x0 #5704
[attach-enode] #5704 0
[end-of-instance]
[mk-quant] #5703 user_core__iter__traits__iterator__Iterator__next_0 3 #5699 #5702
[attach-var-names] #5703 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|closure%$| ; |Poly|)
[mk-app] #5704 has_type #63 #3841
[mk-app] #5705 has_type #43 #3850
[mk-app] #5706 and #5704 #5705
[mk-app] #5707 closure_ens #2955 #3840 #3841 #5695 #63 #43
[mk-app] #5708 %Poly%tuple%1. #63
[mk-app] #5709 tuple%1./tuple%1/0 #5708
[mk-app] #5710 mut_ref_future% #5709
[mk-app] #5711 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #44 #45 #5710
[mk-app] #5712 mut_ref_current% #5709
[mk-app] #5713 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #44 #45 #5712
[mk-app] #5714 = #5711 #5713
[mk-app] #5715 %B #5711
[mk-app] #5716 vstd!std_specs.iter.IteratorSpec.will_return_none.? #44 #45 #5710
[mk-app] #5717 vstd!std_specs.iter.IteratorSpec.will_return_none.? #44 #45 #5712
[mk-app] #5718 = #5716 #5717
[mk-app] #5719 => #5715 #5718
[mk-app] #5720 and #5714 #5719
[mk-app] #5721 vstd!std_specs.iter.IteratorSpec.decrease.? #44 #45 #5712
[mk-app] #5722 %Poly%core!option.Option. #5721
[mk-app] #5723 is-core!option.Option./Some #5722
[mk-app] #5724 vstd!std_specs.iter.IteratorSpec.decrease.? #44 #45 #5710
[mk-app] #5725 %Poly%core!option.Option. #5724
[mk-app] #5726 is-core!option.Option./Some #5725
[mk-app] #5727 = #5723 #5726
[mk-app] #5728 => #5715 #5727
[mk-app] #5729 and #5720 #5728
[mk-app] #5730 vstd!std_specs.iter.IteratorSpec.remaining.? #44 #45 #5712
[mk-app] #5731 vstd!seq.Seq.len.? #3052 #3433 #5730
[mk-app] #5732 > #5731 #334
[mk-app] #5733 vstd!std_specs.iter.IteratorSpec.remaining.? #44 #45 #5710
[mk-app] #5734 vstd!seq_lib.impl&%0.drop_first.? #3052 #3433 #5730
[mk-app] #5735 = #5733 #5734
[mk-app] #5736 %Poly%core!option.Option. #43
[mk-app] #5737 vstd!seq.Seq.index.? #3052 #3433 #5730 #5644
[mk-app] #5738 core!option.Option./Some #5737
[mk-app] #5739 = #5736 #5738
[mk-app] #5740 and #5735 #5739
[mk-app] #5741 = #5733 #5730
[mk-app] #5742 = #5736 #1714
[mk-app] #5743 and #5741 #5742
[mk-app] #5744 %B #5716
[mk-app] #5745 and #5743 #5744
[mk-app] #5746 if #5732 #5740 #5745
[mk-app] #5747 => #5715 #5746
[mk-app] #5748 and #5729 #5747
[mk-app] #5749 and #5715 #5732
[mk-app] #5750 and #5749 #5726
[mk-app] #5751 core!option.Option./Some/0 #120 #195 #5725
[mk-app] #5752 %I #5751
[mk-app] #5753 <= #334 #5752
[mk-app] #5754 core!option.Option./Some/0 #120 #195 #5722
[mk-app] #5755 %I #5754
[mk-app] #5756 < #5752 #5755
[mk-app] #5757 and #5753 #5756
[mk-app] #5758 => #5750 #5757
[mk-app] #5759 and #5748 #5758
[mk-app] #5760 => #5707 #5759
[mk-app] #5761 => #5706 #5760
[mk-app] #5762 pattern #5707
[mk-quant] #5763 user_core__iter__traits__iterator__Iterator__next_1 4 #5762 #5761
[attach-var-names] #5763 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|ret$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-app] #5764 not #5715
[mk-app] #5765 or #5764 #5718
[inst-discovered] theory-solving 0x0 basic# ; #5719
[mk-app] #5766 = #5719 #5765
[instance] 0x0 #5766
[attach-enode] #5766 0
[end-of-instance]
[mk-app] #5766 is #5722
[inst-discovered] theory-solving 0x0 datatype# ; #5723
[mk-app] #5767 = #5723 #5766
[instance] 0x0 #5767
[attach-enode] #5767 0
[end-of-instance]
[mk-app] #5767 is #5725
[inst-discovered] theory-solving 0x0 datatype# ; #5726
[mk-app] #5768 = #5726 #5767
[instance] 0x0 #5768
[attach-enode] #5768 0
[end-of-instance]
[mk-app] #5768 = #5766 #5767
[mk-app] #5769 or #5764 #5768
[mk-app] #5770 => #5715 #5768
[inst-discovered] theory-solving 0x0 basic# ; #5770
[mk-app] #5771 = #5770 #5769
[instance] 0x0 #5771
[attach-enode] #5771 0
[end-of-instance]
[mk-app] #5770 <= #5731 #334
[mk-app] #5771 not #5770
[inst-discovered] theory-solving 0x0 arith# ; #5732
[mk-app] #5772 = #5732 #5771
[instance] 0x0 #5772
[attach-enode] #5772 0
[end-of-instance]
[mk-app] #5772 and #5741 #5742 #5744
[mk-app] #5773 if #5770 #5772 #5740
[mk-app] #5774 if #5771 #5740 #5772
[inst-discovered] theory-solving 0x0 basic# ; #5774
[mk-app] #5775 = #5774 #5773
[instance] 0x0 #5775
[attach-enode] #5775 0
[end-of-instance]
[mk-app] #5774 or #5764 #5773
[mk-app] #5775 => #5715 #5773
[inst-discovered] theory-solving 0x0 basic# ; #5775
[mk-app] #5776 = #5775 #5774
[instance] 0x0 #5776
[attach-enode] #5776 0
[end-of-instance]
[mk-app] #5775 and #5715 #5771 #5767
[attach-meaning] #363 arith (- 1)
[mk-app] #5776 * #363 #5752
[mk-app] #5777 >= #5752 #334
[inst-discovered] theory-solving 0x0 arith# ; #5753
[mk-app] #5776 = #5753 #5777
[instance] 0x0 #5776
[attach-enode] #5776 0
[end-of-instance]
[mk-app] #5776 <= #5755 #5752
[mk-app] #5778 not #5776
[inst-discovered] theory-solving 0x0 arith# ; #5756
[mk-app] #5779 = #5756 #5778
[instance] 0x0 #5779
[attach-enode] #5779 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #5779 * #363 #5752
[mk-app] #5780 + #5779 #5755
[attach-meaning] #363 arith (- 1)
[mk-app] #5781 * #363 #5755
[mk-app] #5782 + #5752 #5781
[mk-app] #5779 >= #5782 #334
[inst-discovered] theory-solving 0x0 arith# ; #5776
[mk-app] #5780 = #5776 #5779
[instance] 0x0 #5780
[attach-enode] #5780 0
[end-of-instance]
[mk-app] #5780 not #5779
[mk-app] #5783 and #5777 #5780
[mk-app] #5784 not #5775
[mk-app] #5785 or #5784 #5783
[mk-app] #5786 => #5775 #5783
[inst-discovered] theory-solving 0x0 basic# ; #5786
[mk-app] #5787 = #5786 #5785
[instance] 0x0 #5787
[attach-enode] #5787 0
[end-of-instance]
[mk-app] #5786 and #5714 #5765 #5769 #5774 #5785
[mk-app] #5787 not #5707
[mk-app] #5788 or #5787 #5786
[mk-app] #5789 => #5707 #5786
[inst-discovered] theory-solving 0x0 basic# ; #5789
[mk-app] #5790 = #5789 #5788
[instance] 0x0 #5790
[attach-enode] #5790 0
[end-of-instance]
[mk-app] #5789 not #5706
[mk-app] #5790 or #5789 #5787 #5786
[mk-app] #5791 => #5706 #5788
[inst-discovered] theory-solving 0x0 basic# ; #5791
[mk-app] #5792 = #5791 #5790
[instance] 0x0 #5792
[attach-enode] #5792 0
[end-of-instance]
[mk-quant] #5788 user_core__iter__traits__iterator__Iterator__next_1 4 #5762 #5790
[attach-var-names] #5788 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|ret$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-app] #5776 vstd!std_specs.iter.IteratorSpec.peek.? #1249 #263 #32 #33
[mk-app] #5778 has_type #5776 #5620
[mk-app] #5791 => #5021 #5778
[mk-app] #5792 pattern #5776
[mk-quant] #5793 internal_vstd!std_specs.iter.IteratorSpec.peek.?_pre_post_definition 4 #5792 #5791
[attach-var-names] #5793 (|index!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5794 or #5027 #5778
[inst-discovered] theory-solving 0x0 basic# ; #5791
[mk-app] #5795 = #5791 #5794
[instance] 0x0 #5795
[attach-enode] #5795 0
[end-of-instance]
[mk-quant] #5795 internal_vstd!std_specs.iter.IteratorSpec.peek.?_pre_post_definition 4 #5792 #5794
[attach-var-names] #5795 (|index!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5796 ens%core!iter.traits.collect.IntoIterator.into_iter. #1249 #263 #32 #33
[mk-app] #5797 proj%core!iter.traits.collect.IntoIterator./IntoIter #1249 #263
[mk-app] #5798 has_type #33 #5797
[mk-app] #5799 = #5796 #5798
[mk-app] #5800 pattern #5796
[mk-quant] #5801 internal_ens__core!iter.traits.collect.IntoIterator.into_iter._definition 4 #5800 #5799
[attach-var-names] #5801 (|%return!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #5802 ens%core!iter.traits.collect.impl&%0.into_iter. #1249 #263 #32 #33
[mk-app] #5803 = #33 #32
[mk-app] #5804 and #5796 #5803
[mk-app] #5805 = #5802 #5804
[mk-app] #5806 pattern #5802
[mk-quant] #5807 internal_ens__core!iter.traits.collect.impl&__0.into_iter._definition 4 #5806 #5805
[attach-var-names] #5807 (|r!| ; |Poly|) (|i!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5808 fuel_bool_default #800
[mk-app] #5809 fuel_bool #800
[mk-app] #5810 vstd!std_specs.iter.impl&%11.index.? #64 #65 #33
[mk-app] #5811 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/index #1880
[mk-app] #5812 = #5810 #5811
[mk-app] #5813 pattern #5810
[mk-quant] #5814 internal_vstd!std_specs.iter.impl&__11.index.?_definition 3 #5813 #5812
[attach-var-names] #5814 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5815 => #5809 #5814
[mk-app] #5816 not #5809
[mk-app] #5817 or #5816 #5814
[inst-discovered] theory-solving 0x0 basic# ; #5815
[mk-app] #5818 = #5815 #5817
[instance] 0x0 #5818
[attach-enode] #5818 0
[end-of-instance]
[mk-app] #5818 => #3051 #3090
[mk-quant] #5819 internal_vstd__std_specs__iter__impl&__12_trait_impl_definition 2 #3092 #5818
[attach-var-names] #5819 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #5820 or #3057 #3090
[inst-discovered] theory-solving 0x0 basic# ; #5818
[mk-app] #5821 = #5818 #5820
[instance] 0x0 #5821
[attach-enode] #5821 0
[end-of-instance]
[mk-quant] #5821 internal_vstd__std_specs__iter__impl&__12_trait_impl_definition 2 #3092 #5820
[attach-var-names] #5821 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #5822 fuel_bool_default #799
[mk-app] #5823 fuel_bool #799
[mk-app] #5824 vstd!std_specs.iter.impl&%11.seq.? #64 #65 #33
[mk-app] #5825 vstd!std_specs.iter.IteratorSpec.remaining.? #64 #65 #1916
[mk-app] #5826 = #5824 #5825
[mk-app] #5827 pattern #5824
[mk-quant] #5828 internal_vstd!std_specs.iter.impl&__11.seq.?_definition 3 #5827 #5826
[attach-var-names] #5828 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5829 => #5823 #5828
[mk-app] #5830 not #5823
[mk-app] #5831 or #5830 #5828
[inst-discovered] theory-solving 0x0 basic# ; #5829
[mk-app] #5832 = #5829 #5831
[instance] 0x0 #5832
[attach-enode] #5832 0
[end-of-instance]
[mk-app] #5832 has_type #5824 #1943
[mk-app] #5833 => #1879 #5832
[mk-quant] #5834 internal_vstd!std_specs.iter.impl&__11.seq.?_pre_post_definition 3 #5827 #5833
[attach-var-names] #5834 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5835 or #1886 #5832
[inst-discovered] theory-solving 0x0 basic# ; #5833
[mk-app] #5836 = #5833 #5835
[instance] 0x0 #5836
[attach-enode] #5836 0
[end-of-instance]
[mk-quant] #5836 internal_vstd!std_specs.iter.impl&__11.seq.?_pre_post_definition 3 #5827 #5835
[attach-var-names] #5836 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5837 fuel_bool_default #801
[mk-app] #5838 fuel_bool #801
[mk-app] #5839 vstd!std_specs.iter.impl&%11.wf.? #64 #65 #33
[mk-app] #5840 vstd!seq.Seq.len.? #1941 #1942 #5824
[mk-app] #5841 <= #334 #5810
[mk-app] #5842 <= #5810 #5840
[mk-app] #5843 and #5841 #5842
[mk-app] #5844 vstd!std_specs.iter.impl&%11.wf_inner.? #64 #65 #33
[mk-app] #5845 and #5843 #5844
[mk-app] #5846 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #64 #65 #1928
[mk-app] #5847 %B #5846
[mk-app] #5848 vstd!seq.Seq.len.? #1941 #1942 #1940
[mk-app] #5849 = #5848 #5810
[mk-app] #5850 vstd!std_specs.iter.impl&%11.index.? #1249 #263 #32
[mk-app] #5851 < #186 #5850
[mk-app] #5852 and #510 #5851
[mk-app] #5853 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #32
[mk-app] #5854 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history #5853
[mk-app] #5855 vstd!seq.Seq.index.? #3810 #3819 #5854 #33
[mk-app] #5856 vstd!std_specs.iter.impl&%11.seq.? #1249 #263 #32
[mk-app] #5857 vstd!seq.Seq.index.? #3810 #3819 #5856 #33
[mk-app] #5858 = #5855 #5857
[mk-app] #5859 => #5852 #5858
[mk-app] #5860 => #185 #5859
[mk-app] #5861 pattern #5855
[mk-quant] #5862 user_vstd__std_specs__iter__impl&%11__wf_0 1 #5861 #5860
[attach-var-names] #5862 (|i$| ; |Poly|)
[mk-app] #5863 and #5849 #5862
[mk-app] #5864 => #5847 #5863
[mk-app] #5865 and #5845 #5864
[mk-app] #5866 = #5839 #5865
[mk-app] #5867 pattern #5839
[mk-quant] #5868 internal_vstd!std_specs.iter.impl&__11.wf.?_definition 3 #5867 #5866
[attach-var-names] #5868 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5869 => #5838 #5868
[attach-meaning] #363 arith (- 1)
[mk-app] #5870 * #363 #5810
[mk-app] #5871 >= #5810 #334
[inst-discovered] theory-solving 0x0 arith# ; #5841
[mk-app] #5870 = #5841 #5871
[instance] 0x0 #5870
[attach-enode] #5870 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #5870 * #363 #5840
[mk-app] #5872 + #5810 #5870
[mk-app] #5873 <= #5872 #334
[inst-discovered] theory-solving 0x0 arith# ; #5842
[mk-app] #5874 = #5842 #5873
[instance] 0x0 #5874
[attach-enode] #5874 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #5874 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #5874 = #510 #514
[instance] 0x0 #5874
[attach-enode] #5874 0
[end-of-instance]
[mk-app] #5874 <= #5850 #186
[mk-app] #5875 not #5874
[inst-discovered] theory-solving 0x0 arith# ; #5851
[mk-app] #5876 = #5851 #5875
[instance] 0x0 #5876
[attach-enode] #5876 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #5876 * #363 #186
[mk-app] #5877 + #5876 #5850
[attach-meaning] #363 arith (- 1)
[mk-app] #5878 * #363 #5850
[mk-app] #5879 + #186 #5878
[mk-app] #5876 >= #5879 #334
[inst-discovered] theory-solving 0x0 arith# ; #5874
[mk-app] #5877 = #5874 #5876
[instance] 0x0 #5877
[attach-enode] #5877 0
[end-of-instance]
[mk-app] #5877 not #5876
[mk-app] #5880 and #514 #5877
[mk-app] #5881 not #5880
[mk-app] #5882 or #5881 #5858
[mk-app] #5883 => #5880 #5858
[inst-discovered] theory-solving 0x0 basic# ; #5883
[mk-app] #5884 = #5883 #5882
[instance] 0x0 #5884
[attach-enode] #5884 0
[end-of-instance]
[mk-app] #5883 or #192 #5881 #5858
[mk-app] #5884 => #185 #5882
[inst-discovered] theory-solving 0x0 basic# ; #5884
[mk-app] #5885 = #5884 #5883
[instance] 0x0 #5885
[attach-enode] #5885 0
[end-of-instance]
[mk-quant] #5882 user_vstd__std_specs__iter__impl&%11__wf_0 1 #5861 #5883
[attach-var-names] #5882 (|i$| ; |Poly|)
[mk-app] #5874 and #5849 #5882
[mk-app] #5875 not #5847
[mk-app] #5884 or #5875 #5874
[mk-app] #5885 => #5847 #5874
[inst-discovered] theory-solving 0x0 basic# ; #5885
[mk-app] #5886 = #5885 #5884
[instance] 0x0 #5886
[attach-enode] #5886 0
[end-of-instance]
[mk-app] #5885 and #5871 #5873 #5844 #5884
[mk-app] #5886 = #5839 #5885
[mk-quant] #5887 internal_vstd!std_specs.iter.impl&__11.wf.?_definition 3 #5867 #5886
[attach-var-names] #5887 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5888 not #5838
[mk-app] #5889 or #5888 #5887
[mk-app] #5890 => #5838 #5887
[inst-discovered] theory-solving 0x0 basic# ; #5890
[mk-app] #5891 = #5890 #5889
[instance] 0x0 #5891
[attach-enode] #5891 0
[end-of-instance]
[mk-app] #5890 ens%vstd!std_specs.iter.impl&%11.new. #1249 #263 #32 #1872
[mk-app] #5891 TYPE%vstd!std_specs.iter.VerusForLoopWrapper. #1249 #263
[mk-app] #5892 has_type #1873 #5891
[mk-app] #5893 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/index #1874
[mk-app] #5894 = #5893 #334
[mk-app] #5895 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot #1874
[mk-app] #5896 = #5895 #32
[mk-app] #5897 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #1874
[mk-app] #5898 = #5897 #32
[mk-app] #5899 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history #1874
[mk-app] #5900 vstd!seq.Seq.empty.? #3810 #3819
[mk-app] #5901 = #5899 #5900
[mk-app] #5902 vstd!std_specs.iter.impl&%11.wf.? #1249 #263 #1873
[mk-app] #5903 and #5892 #5894 #5896 #5898 #5901 #5902
[mk-app] #5904 = #5890 #5903
[mk-app] #5905 pattern #5890
[mk-quant] #5906 internal_ens__vstd!std_specs.iter.impl&__11.new._definition 4 #5905 #5904
[attach-var-names] #5906 (|s!| ; |vstd!std_specs.iter.VerusForLoopWrapper.|) (|iter!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5907 req%vstd!std_specs.iter.impl&%11.next. #64 #65 #33
[mk-app] #5908 %%global_location_label%%6
[mk-app] #5909 mut_ref_current% #33
[mk-app] #5910 vstd!std_specs.iter.impl&%11.wf.? #64 #65 #5909
[mk-app] #5911 => #5908 #5910
[mk-app] #5912 = #5907 #5911
[mk-app] #5913 pattern #5907
[mk-quant] #5914 internal_req__vstd!std_specs.iter.impl&__11.next._definition 3 #5913 #5912
[attach-var-names] #5914 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5915 not #5908
[mk-app] #5916 or #5915 #5910
[inst-discovered] theory-solving 0x0 basic# ; #5911
[mk-app] #5917 = #5911 #5916
[instance] 0x0 #5917
[attach-enode] #5917 0
[end-of-instance]
[mk-app] #5917 = #5907 #5916
[mk-quant] #5918 internal_req__vstd!std_specs.iter.impl&__11.next._definition 3 #5913 #5917
[attach-var-names] #5918 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #5919 ens%vstd!std_specs.iter.impl&%11.next. #1249 #263 #32 #1697
[mk-app] #5920 has_type #1698 #5620
[mk-app] #5921 vstd!std_specs.iter.impl&%11.seq.? #1249 #263 #40
[mk-app] #5922 vstd!std_specs.iter.impl&%11.seq.? #1249 #263 #4443
[mk-app] #5923 = #5921 #5922
[mk-app] #5924 vstd!std_specs.iter.impl&%11.index.? #1249 #263 #40
[mk-app] #5925 vstd!std_specs.iter.impl&%11.index.? #1249 #263 #4443
[mk-app] #5926 if #1729 #289 #334
[mk-app] #5927 Add #5925 #5926
[mk-app] #5928 = #5924 #5927
[mk-app] #5929 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #40
[mk-app] #5930 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot #5929
[mk-app] #5931 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #4443
[mk-app] #5932 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/snapshot #5931
[mk-app] #5933 = #5930 #5932
[mk-app] #5934 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #5929
[mk-app] #5935 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #1249 #263 #5934
[mk-app] #5936 %B #5935
[mk-app] #5937 vstd!std_specs.iter.impl&%11.wf.? #1249 #263 #40
[mk-app] #5938 => #5936 #5937
[mk-app] #5939 is-core!option.Option./None #1697
[mk-app] #5940 and #5936 #5939
[mk-app] #5941 vstd!std_specs.iter.IteratorSpec.will_return_none.? #1249 #263 #5930
[mk-app] #5942 %B #5941
[mk-app] #5943 vstd!seq.Seq.len.? #3810 #3819 #5921
[mk-app] #5944 = #5924 #5943
[mk-app] #5945 and #5942 #5944
[mk-app] #5946 => #5940 #5945
[mk-app] #5947 core!option.Option./Some/0 #3810 #3819 #1699
[mk-app] #5948 I #5925
[mk-app] #5949 vstd!seq.Seq.index.? #3810 #3819 #5922 #5948
[mk-app] #5950 = #5947 #5949
[mk-app] #5951 => #1729 #5950
[mk-app] #5952 => #5936 #5951
[mk-app] #5953 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history #5929
[mk-app] #5954 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/history #5931
[mk-app] #5955 vstd!seq.Seq.push.? #3810 #3819 #5954 #5947
[mk-app] #5956 = #5953 #5955
[mk-app] #5957 => #1729 #5956
[mk-app] #5958 = #5953 #5954
[mk-app] #5959 => #5939 #5958
[mk-app] #5960 has_type #33 #4460
[mk-app] #5961 FNDEF%core!iter.traits.iterator.Iterator.next. #1216 #1217
[mk-app] #5962 TYPE%tuple%1. #120 #4460
[mk-var] #5963 1
[mk-app] #5964 Poly%core!option.Option. #5963
[mk-app] #5965 closure_ens #5961 #3840 #5962 #5695 #2690 #5964
[mk-app] #5966 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #48
[mk-app] #5967 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #5966
[mk-app] #5968 = #5909 #5967
[mk-app] #5969 and #5965 #5968
[mk-app] #5970 mut_ref_future% #33
[mk-app] #5971 %Poly%vstd!std_specs.iter.VerusForLoopWrapper. #56
[mk-app] #5972 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #5971
[mk-app] #5973 = #5970 #5972
[mk-app] #5974 and #5969 #5973
[mk-app] #5975 and #5960 #5974
[mk-app] #5976 pattern #5909
[mk-app] #5977 pattern #5970
[mk-quant] #5978 user_vstd__std_specs__iter__impl&%11__next_0 1 #5976 #5977 #5975
[attach-var-names] #5978 (|m$| ; |Poly|)
[mk-app] #5979 and #5920 #5923 #5928 #5933 #5938 #5946 #5952 #5957 #5959 #5978
[mk-app] #5980 = #5919 #5979
[mk-app] #5981 pattern #5919
[mk-quant] #5982 internal_ens__vstd!std_specs.iter.impl&__11.next._definition 4 #5981 #5980
[attach-var-names] #5982 (|ret!| ; |core!option.Option.|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #1729
[mk-app] #5983 = #1729 #1736
[instance] 0x0 #5983
[attach-enode] #5983 0
[end-of-instance]
[mk-app] #5983 if #1736 #289 #334
[mk-app] #5984 Add #5925 #5983
[mk-app] #5985 = #5924 #5984
[mk-app] #5986 not #5936
[mk-app] #5987 or #5986 #5937
[inst-discovered] theory-solving 0x0 basic# ; #5938
[mk-app] #5988 = #5938 #5987
[instance] 0x0 #5988
[attach-enode] #5988 0
[end-of-instance]
[mk-app] #5988 is #1697
[inst-discovered] theory-solving 0x0 datatype# ; #5939
[mk-app] #5989 = #5939 #5988
[instance] 0x0 #5989
[attach-enode] #5989 0
[end-of-instance]
[mk-app] #5989 and #5936 #5988
[mk-app] #5990 not #5989
[mk-app] #5991 or #5990 #5945
[mk-app] #5992 => #5989 #5945
[inst-discovered] theory-solving 0x0 basic# ; #5992
[mk-app] #5993 = #5992 #5991
[instance] 0x0 #5993
[attach-enode] #5993 0
[end-of-instance]
[mk-app] #5992 or #1737 #5950
[mk-app] #5993 => #1736 #5950
[inst-discovered] theory-solving 0x0 basic# ; #5993
[mk-app] #5994 = #5993 #5992
[instance] 0x0 #5994
[attach-enode] #5994 0
[end-of-instance]
[mk-app] #5993 or #5986 #1737 #5950
[mk-app] #5994 => #5936 #5992
[inst-discovered] theory-solving 0x0 basic# ; #5994
[mk-app] #5995 = #5994 #5993
[instance] 0x0 #5995
[attach-enode] #5995 0
[end-of-instance]
[mk-app] #5992 or #1737 #5956
[mk-app] #5994 => #1736 #5956
[inst-discovered] theory-solving 0x0 basic# ; #5994
[mk-app] #5995 = #5994 #5992
[instance] 0x0 #5995
[attach-enode] #5995 0
[end-of-instance]
[mk-app] #5994 not #5988
[mk-app] #5995 or #5994 #5958
[mk-app] #5996 => #5988 #5958
[inst-discovered] theory-solving 0x0 basic# ; #5996
[mk-app] #5997 = #5996 #5995
[instance] 0x0 #5997
[attach-enode] #5997 0
[end-of-instance]
[mk-app] #5996 and #5960 #5965 #5968 #5973
[mk-quant] #5997 user_vstd__std_specs__iter__impl&%11__next_0 1 #5976 #5977 #5996
[attach-var-names] #5997 (|m$| ; |Poly|)
[mk-app] #5998 and #5920 #5923 #5985 #5933 #5987 #5991 #5993 #5992 #5995 #5997
[mk-app] #5999 = #5919 #5998
[mk-quant] #6000 internal_ens__vstd!std_specs.iter.impl&__11.next._definition 4 #5981 #5999
[attach-var-names] #6000 (|ret!| ; |core!option.Option.|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #6001 fuel_bool_default #804
[mk-app] #6002 fuel_bool #804
[mk-app] #6003 vstd!std_specs.option.is_some.? #64 #65 #33
[mk-app] #6004 = #6003 #1773
[mk-app] #6005 pattern #6003
[mk-quant] #6006 internal_vstd!std_specs.option.is_some.?_definition 3 #6005 #6004
[attach-var-names] #6006 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6007 => #6002 #6006
[inst-discovered] theory-solving 0x0 datatype# ; #1773
[mk-app] #6008 = #1773 #1781
[instance] 0x0 #6008
[attach-enode] #6008 0
[end-of-instance]
[mk-app] #6008 = #6003 #1781
[mk-quant] #6009 internal_vstd!std_specs.option.is_some.?_definition 3 #6005 #6008
[attach-var-names] #6009 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6010 not #6002
[mk-app] #6011 or #6010 #6009
[mk-app] #6012 => #6002 #6009
[inst-discovered] theory-solving 0x0 basic# ; #6012
[mk-app] #6013 = #6012 #6011
[instance] 0x0 #6013
[attach-enode] #6013 0
[end-of-instance]
[mk-app] #6012 fuel_bool_default #805
[mk-app] #6013 fuel_bool #805
[mk-app] #6014 vstd!std_specs.option.is_none.? #64 #65 #33
[mk-app] #6015 = #6014 #1760
[mk-app] #6016 pattern #6014
[mk-quant] #6017 internal_vstd!std_specs.option.is_none.?_definition 3 #6016 #6015
[attach-var-names] #6017 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6018 => #6013 #6017
[inst-discovered] theory-solving 0x0 datatype# ; #1760
[mk-app] #6019 = #1760 #1767
[instance] 0x0 #6019
[attach-enode] #6019 0
[end-of-instance]
[mk-app] #6019 = #6014 #1767
[mk-quant] #6020 internal_vstd!std_specs.option.is_none.?_definition 3 #6016 #6019
[attach-var-names] #6020 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6021 not #6013
[mk-app] #6022 or #6021 #6020
[mk-app] #6023 => #6013 #6020
[inst-discovered] theory-solving 0x0 basic# ; #6023
[mk-app] #6024 = #6023 #6022
[instance] 0x0 #6024
[attach-enode] #6024 0
[end-of-instance]
[mk-app] #6023 req%vstd!std_specs.option.spec_unwrap. #64 #65 #33
[mk-app] #6024 %%global_location_label%%7
[mk-app] #6025 => #6024 #1773
[mk-app] #6026 = #6023 #6025
[mk-app] #6027 pattern #6023
[mk-quant] #6028 internal_req__vstd!std_specs.option.spec_unwrap._definition 3 #6027 #6026
[attach-var-names] #6028 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #1773
[mk-app] #6029 = #1773 #1781
[instance] 0x0 #6029
[attach-enode] #6029 0
[end-of-instance]
[mk-app] #6029 not #6024
[mk-app] #6030 or #6029 #1781
[mk-app] #6031 => #6024 #1781
[inst-discovered] theory-solving 0x0 basic# ; #6031
[mk-app] #6032 = #6031 #6030
[instance] 0x0 #6032
[attach-enode] #6032 0
[end-of-instance]
[mk-app] #6031 = #6023 #6030
[mk-quant] #6032 internal_req__vstd!std_specs.option.spec_unwrap._definition 3 #6027 #6031
[attach-var-names] #6032 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6033 fuel_bool_default #806
[mk-app] #6034 fuel_bool #806
[mk-app] #6035 vstd!std_specs.option.spec_unwrap.? #64 #65 #33
[mk-app] #6036 = #6035 #1740
[mk-app] #6037 pattern #6035
[mk-quant] #6038 internal_vstd!std_specs.option.spec_unwrap.?_definition 3 #6037 #6036
[attach-var-names] #6038 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6039 => #6034 #6038
[mk-app] #6040 not #6034
[mk-app] #6041 or #6040 #6038
[inst-discovered] theory-solving 0x0 basic# ; #6039
[mk-app] #6042 = #6039 #6041
[instance] 0x0 #6042
[attach-enode] #6042 0
[end-of-instance]
[mk-app] #6042 has_type #6035 #65
[mk-app] #6043 => #1704 #6042
[mk-quant] #6044 internal_vstd!std_specs.option.spec_unwrap.?_pre_post_definition 3 #6037 #6043
[attach-var-names] #6044 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6045 or #1711 #6042
[inst-discovered] theory-solving 0x0 basic# ; #6043
[mk-app] #6046 = #6043 #6045
[instance] 0x0 #6046
[attach-enode] #6046 0
[end-of-instance]
[mk-quant] #6046 internal_vstd!std_specs.option.spec_unwrap.?_pre_post_definition 3 #6037 #6045
[attach-var-names] #6046 (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6047 req%core!option.impl&%0.unwrap. #64 #65 #1697
[mk-app] #6048 %%global_location_label%%8
[mk-app] #6049 => #6048 #1729
[mk-app] #6050 = #6047 #6049
[mk-app] #6051 pattern #6047
[mk-quant] #6052 internal_req__core!option.impl&__0.unwrap._definition 3 #6051 #6050
[attach-var-names] #6052 (|option!| ; |core!option.Option.|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #1729
[mk-app] #6053 = #1729 #1736
[instance] 0x0 #6053
[attach-enode] #6053 0
[end-of-instance]
[mk-app] #6053 not #6048
[mk-app] #6054 or #6053 #1736
[mk-app] #6055 => #6048 #1736
[inst-discovered] theory-solving 0x0 basic# ; #6055
[mk-app] #6056 = #6055 #6054
[instance] 0x0 #6056
[attach-enode] #6056 0
[end-of-instance]
[mk-app] #6055 = #6047 #6054
[mk-quant] #6056 internal_req__core!option.impl&__0.unwrap._definition 3 #6051 #6055
[attach-var-names] #6056 (|option!| ; |core!option.Option.|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6057 ens%core!option.impl&%0.unwrap. #1249 #263 #5963 #33
[mk-app] #6058 %Poly%core!option.Option. #5964
[mk-app] #6059 core!option.Option./Some/0 #1249 #263 #6058
[mk-app] #6060 = #33 #6059
[mk-app] #6061 and #1988 #6060
[mk-app] #6062 = #6057 #6061
[mk-app] #6063 pattern #6057
[mk-quant] #6064 internal_ens__core!option.impl&__0.unwrap._definition 4 #6063 #6062
[attach-var-names] #6064 (|t!| ; |Poly|) (|option!| ; |core!option.Option.|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6065 fuel_bool_default #807
[mk-app] #6066 fuel_bool #807
[mk-app] #6067 vstd!std_specs.option.spec_unwrap_or.? #1249 #263 #32 #33
[mk-app] #6068 core!option.Option./Some/0 #1249 #263 #1758
[mk-app] #6069 if #1772 #6068 #33
[mk-app] #6070 = #6067 #6069
[mk-app] #6071 pattern #6067
[mk-quant] #6072 internal_vstd!std_specs.option.spec_unwrap_or.?_definition 4 #6071 #6070
[attach-var-names] #6072 (|default!| ; |Poly|) (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6073 => #6066 #6072
[inst-discovered] theory-solving 0x0 datatype# ; #1772
[mk-app] #6074 = #1772 #1780
[instance] 0x0 #6074
[attach-enode] #6074 0
[end-of-instance]
[mk-app] #6074 if #1780 #6068 #33
[mk-app] #6075 = #6067 #6074
[mk-quant] #6076 internal_vstd!std_specs.option.spec_unwrap_or.?_definition 4 #6071 #6075
[attach-var-names] #6076 (|default!| ; |Poly|) (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6077 not #6066
[mk-app] #6078 or #6077 #6076
[mk-app] #6079 => #6066 #6076
[inst-discovered] theory-solving 0x0 basic# ; #6079
[mk-app] #6080 = #6079 #6078
[instance] 0x0 #6080
[attach-enode] #6080 0
[end-of-instance]
[mk-app] #6079 has_type #32 #5013
[mk-app] #6080 and #6079 #1988
[mk-app] #6081 has_type #6067 #263
[mk-app] #6082 => #6080 #6081
[mk-quant] #6083 internal_vstd!std_specs.option.spec_unwrap_or.?_pre_post_definition 4 #6071 #6082
[attach-var-names] #6083 (|default!| ; |Poly|) (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6084 not #6080
[mk-app] #6085 or #6084 #6081
[inst-discovered] theory-solving 0x0 basic# ; #6082
[mk-app] #6086 = #6082 #6085
[instance] 0x0 #6086
[attach-enode] #6086 0
[end-of-instance]
[mk-quant] #6086 internal_vstd!std_specs.option.spec_unwrap_or.?_pre_post_definition 4 #6071 #6085
[attach-var-names] #6086 (|default!| ; |Poly|) (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6087 ens%core!iter.range.impl&%6.next. #1249 #263 #32 #33
[mk-app] #6088 ens%core!iter.traits.iterator.Iterator.next. #120 #1992 #32 #33
[mk-app] #6089 tuple%2./tuple%2 #40 #33
[mk-app] #6090 vstd!std_specs.range.spec_range_next.? #1249 #263 #4443
[mk-app] #6091 = #6089 #6090
[mk-app] #6092 and #6088 #6091
[mk-app] #6093 = #6087 #6092
[mk-app] #6094 pattern #6087
[mk-quant] #6095 internal_ens__core!iter.range.impl&__6.next._definition 4 #6094 #6093
[attach-var-names] #6095 (|r!| ; |Poly|) (|range!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6096 has_type #63 #3859
[mk-app] #6097 has_type #43 #1716
[mk-app] #6098 and #6096 #6097
[mk-app] #6099 closure_ens #3857 #3840 #3859 #5695 #63 #43
[mk-app] #6100 tuple%2./tuple%2 #5710 #43
[mk-app] #6101 vstd!std_specs.range.spec_range_next.? #44 #45 #5712
[mk-app] #6102 = #6100 #6101
[mk-app] #6103 => #6099 #6102
[mk-app] #6104 => #6098 #6103
[mk-app] #6105 pattern #6099
[mk-quant] #6106 user_core__iter__range__impl&%6__next_0 4 #6105 #6104
[attach-var-names] #6106 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|r$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-app] #6107 not #6099
[mk-app] #6108 or #6107 #6102
[inst-discovered] theory-solving 0x0 basic# ; #6103
[mk-app] #6109 = #6103 #6108
[instance] 0x0 #6109
[attach-enode] #6109 0
[end-of-instance]
[mk-app] #6109 not #6098
[mk-app] #6110 or #6109 #6107 #6102
[mk-app] #6111 => #6098 #6108
[inst-discovered] theory-solving 0x0 basic# ; #6111
[mk-app] #6112 = #6111 #6110
[instance] 0x0 #6112
[attach-enode] #6112 0
[end-of-instance]
[mk-quant] #6108 user_core__iter__range__impl&%6__next_0 4 #6105 #6110
[attach-var-names] #6108 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|r$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-app] #6111 has_type #33 #1272
[mk-app] #6112 vstd!std_specs.result.ResultAdditionalSpecFns.arrow_Ok_0.? #1271 #1272 #1216 #1217 #64 #65 #33
[mk-app] #6113 has_type #6112 #1217
[mk-app] #6114 => #6111 #6113
[mk-app] #6115 pattern #6112
[mk-quant] #6116 internal_vstd!std_specs.result.ResultAdditionalSpecFns.arrow_Ok_0.?_pre_post_definition 7 #6115 #6114
[attach-var-names] #6116 (|self!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6117 not #6111
[mk-app] #6118 or #6117 #6113
[inst-discovered] theory-solving 0x0 basic# ; #6114
[mk-app] #6119 = #6114 #6118
[instance] 0x0 #6119
[attach-enode] #6119 0
[end-of-instance]
[mk-quant] #6119 internal_vstd!std_specs.result.ResultAdditionalSpecFns.arrow_Ok_0.?_pre_post_definition 7 #6115 #6118
[attach-var-names] #6119 (|self!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6120 fuel_bool_default #833
[mk-app] #6121 fuel_bool #833
[mk-app] #6122 vstd!std_specs.result.is_ok.? #1216 #1217 #64 #65 #33
[mk-app] #6123 is-core!result.Result./Ok #1794
[mk-app] #6124 = #6122 #6123
[mk-app] #6125 pattern #6122
[mk-quant] #6126 internal_vstd!std_specs.result.is_ok.?_definition 5 #6125 #6124
[attach-var-names] #6126 (|result!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6127 => #6121 #6126
[mk-app] #6128 is #1794
[inst-discovered] theory-solving 0x0 datatype# ; #6123
[mk-app] #6129 = #6123 #6128
[instance] 0x0 #6129
[attach-enode] #6129 0
[end-of-instance]
[mk-app] #6129 = #6122 #6128
[mk-quant] #6130 internal_vstd!std_specs.result.is_ok.?_definition 5 #6125 #6129
[attach-var-names] #6130 (|result!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6131 not #6121
[mk-app] #6132 or #6131 #6130
[mk-app] #6133 => #6121 #6130
[inst-discovered] theory-solving 0x0 basic# ; #6133
[mk-app] #6134 = #6133 #6132
[instance] 0x0 #6134
[attach-enode] #6134 0
[end-of-instance]
[mk-app] #6133 fuel_bool_default #832
[mk-app] #6134 fuel_bool #832
[mk-app] #6135 vstd!std_specs.result.ResultAdditionalSpecFns.arrow_Ok_0.? #120 #1792 #1216 #1217 #64 #65 #33
[mk-app] #6136 = #6135 #1824
[mk-app] #6137 => #5436 #6136
[mk-app] #6138 pattern #6135
[mk-quant] #6139 internal_vstd!std_specs.result.impl&__0.arrow_Ok_0.?_definition 5 #6138 #6137
[attach-var-names] #6139 (|self!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6140 => #6134 #6139
[mk-app] #6141 not #5436
[mk-app] #6142 or #6141 #6136
[inst-discovered] theory-solving 0x0 basic# ; #6137
[mk-app] #6143 = #6137 #6142
[instance] 0x0 #6143
[attach-enode] #6143 0
[end-of-instance]
[mk-quant] #6143 internal_vstd!std_specs.result.impl&__0.arrow_Ok_0.?_definition 5 #6138 #6142
[attach-var-names] #6143 (|self!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6144 not #6134
[mk-app] #6145 or #6144 #6143
[mk-app] #6146 => #6134 #6143
[inst-discovered] theory-solving 0x0 basic# ; #6146
[mk-app] #6147 = #6146 #6145
[instance] 0x0 #6147
[attach-enode] #6147 0
[end-of-instance]
[mk-app] #6146 TYPE%core!result.Result. #1249 #263 #44 #45
[mk-app] #6147 tr_bound%vstd!std_specs.result.ResultAdditionalSpecFns. #120 #6146 #1249 #263 #44 #45
[mk-app] #6148 => #3107 #6147
[mk-app] #6149 pattern #6147
[mk-quant] #6150 internal_vstd__std_specs__result__impl&__0_trait_impl_definition 4 #6149 #6148
[attach-var-names] #6150 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6151 not #3107
[mk-app] #6152 or #6151 #6147
[inst-discovered] theory-solving 0x0 basic# ; #6148
[mk-app] #6153 = #6148 #6152
[instance] 0x0 #6153
[attach-enode] #6153 0
[end-of-instance]
[mk-quant] #6153 internal_vstd__std_specs__result__impl&__0_trait_impl_definition 4 #6149 #6152
[attach-var-names] #6153 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6154 req%core!result.impl&%0.unwrap. #1216 #1217 #64 #65 #1786
[mk-app] #6155 %%global_location_label%%9
[mk-app] #6156 => #6155 #1813
[mk-app] #6157 = #6154 #6156
[mk-app] #6158 pattern #6154
[mk-quant] #6159 internal_req__core!result.impl&__0.unwrap._definition 5 #6158 #6157
[attach-var-names] #6159 (|result!| ; |core!result.Result.|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #1813
[mk-app] #6160 = #1813 #1820
[instance] 0x0 #6160
[attach-enode] #6160 0
[end-of-instance]
[mk-app] #6160 not #6155
[mk-app] #6161 or #6160 #1820
[mk-app] #6162 => #6155 #1820
[inst-discovered] theory-solving 0x0 basic# ; #6162
[mk-app] #6163 = #6162 #6161
[instance] 0x0 #6163
[attach-enode] #6163 0
[end-of-instance]
[mk-app] #6162 = #6154 #6161
[mk-quant] #6163 internal_req__core!result.impl&__0.unwrap._definition 5 #6158 #6162
[attach-var-names] #6163 (|result!| ; |core!result.Result.|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #6164 1
[mk-app] #6165 ens%core!result.impl&%0.unwrap. #1248 #1229 #1249 #263 #6164 #33
[mk-app] #6166 Poly%core!result.Result. #6164
[mk-app] #6167 %Poly%core!result.Result. #6166
[mk-app] #6168 core!result.Result./Ok/0 #1248 #1229 #1249 #263 #6167
[mk-app] #6169 = #33 #6168
[mk-app] #6170 and #1230 #6169
[mk-app] #6171 = #6165 #6170
[mk-app] #6172 pattern #6165
[mk-quant] #6173 internal_ens__core!result.impl&__0.unwrap._definition 6 #6172 #6171
[attach-var-names] #6173 (|t!| ; |Poly|) (|result!| ; |core!result.Result.|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6174 TYPE%core!slice.iter.Iter. #64 #65
[mk-app] #6175 has_type #33 #6174
[mk-app] #6176 vstd!std_specs.slice.into_iter_elts.? #64 #65 #33
[mk-app] #6177 has_type #6176 #3874
[mk-app] #6178 => #6175 #6177
[mk-app] #6179 pattern #6176
[mk-quant] #6180 internal_vstd!std_specs.slice.into_iter_elts.?_pre_post_definition 3 #6179 #6178
[attach-var-names] #6180 (|i!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6181 not #6175
[mk-app] #6182 or #6181 #6177
[inst-discovered] theory-solving 0x0 basic# ; #6178
[mk-app] #6183 = #6178 #6182
[instance] 0x0 #6183
[attach-enode] #6183 0
[end-of-instance]
[mk-quant] #6183 internal_vstd!std_specs.slice.into_iter_elts.?_pre_post_definition 3 #6179 #6182
[attach-var-names] #6183 (|i!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6184 fuel_bool_default #835
[mk-app] #6185 fuel_bool #835
[mk-app] #6186 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #120 #6174 #33
[mk-app] #6187 B #1
[mk-app] #6188 = #6186 #6187
[mk-app] #6189 => #4513 #6188
[mk-app] #6190 pattern #6186
[mk-quant] #6191 internal_vstd!std_specs.slice.impl&__10.obeys_prophetic_iter_laws.?_definition 3 #6190 #6189
[attach-var-names] #6191 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6192 => #6185 #6191
[mk-app] #6193 or #4521 #6188
[inst-discovered] theory-solving 0x0 basic# ; #6189
[mk-app] #6194 = #6189 #6193
[instance] 0x0 #6194
[attach-enode] #6194 0
[end-of-instance]
[mk-quant] #6194 internal_vstd!std_specs.slice.impl&__10.obeys_prophetic_iter_laws.?_definition 3 #6190 #6193
[attach-var-names] #6194 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6195 not #6185
[mk-app] #6196 or #6195 #6194
[mk-app] #6197 => #6185 #6194
[inst-discovered] theory-solving 0x0 basic# ; #6197
[mk-app] #6198 = #6197 #6196
[instance] 0x0 #6198
[attach-enode] #6198 0
[end-of-instance]
[mk-app] #6197 fuel_bool_default #836
[mk-app] #6198 fuel_bool #836
[mk-app] #6199 vstd!std_specs.iter.IteratorSpec.peek.? #120 #3476 #32 #33
[mk-app] #6200 vstd!std_specs.slice.into_iter_elts.? #1249 #263 #32
[mk-app] #6201 vstd!seq.Seq.len.? #1249 #263 #6200
[mk-app] #6202 < #186 #6201
[mk-app] #6203 and #510 #6202
[mk-app] #6204 vstd!seq.Seq.index.? #1249 #263 #6200 #33
[mk-app] #6205 core!option.Option./Some #6204
[mk-app] #6206 if #6203 #6205 #1714
[mk-app] #6207 Poly%core!option.Option. #6206
[mk-app] #6208 = #6199 #6207
[mk-app] #6209 => #3106 #6208
[mk-app] #6210 pattern #6199
[mk-quant] #6211 internal_vstd!std_specs.slice.impl&__10.peek.?_definition 4 #6210 #6209
[attach-var-names] #6211 (|index!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6212 => #6198 #6211
[attach-meaning] #363 arith (- 1)
[mk-app] #6213 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #6213 = #510 #514
[instance] 0x0 #6213
[attach-enode] #6213 0
[end-of-instance]
[mk-app] #6213 <= #6201 #186
[mk-app] #6214 not #6213
[inst-discovered] theory-solving 0x0 arith# ; #6202
[mk-app] #6215 = #6202 #6214
[instance] 0x0 #6215
[attach-enode] #6215 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #6215 * #363 #186
[mk-app] #6216 + #6215 #6201
[attach-meaning] #363 arith (- 1)
[mk-app] #6217 * #363 #6201
[mk-app] #6218 + #186 #6217
[mk-app] #6215 >= #6218 #334
[inst-discovered] theory-solving 0x0 arith# ; #6213
[mk-app] #6216 = #6213 #6215
[instance] 0x0 #6216
[attach-enode] #6216 0
[end-of-instance]
[mk-app] #6216 not #6215
[mk-app] #6219 and #514 #6216
[mk-app] #6220 if #6219 #6205 #1714
[mk-app] #6221 Poly%core!option.Option. #6220
[mk-app] #6222 = #6199 #6221
[mk-app] #6223 or #4044 #6222
[mk-app] #6224 => #3106 #6222
[inst-discovered] theory-solving 0x0 basic# ; #6224
[mk-app] #6225 = #6224 #6223
[instance] 0x0 #6225
[attach-enode] #6225 0
[end-of-instance]
[mk-quant] #6224 internal_vstd!std_specs.slice.impl&__10.peek.?_definition 4 #6210 #6223
[attach-var-names] #6224 (|index!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6213 not #6198
[mk-app] #6214 or #6213 #6224
[mk-app] #6225 => #6198 #6224
[inst-discovered] theory-solving 0x0 basic# ; #6225
[mk-app] #6226 = #6225 #6214
[instance] 0x0 #6226
[attach-enode] #6226 0
[end-of-instance]
[mk-app] #6225 tr_bound%core!iter.traits.iterator.Iterator. #120 #3506
[mk-app] #6226 => #2967 #6225
[mk-app] #6227 pattern #6225
[mk-quant] #6228 internal_core__slice__iter__impl&__171_trait_impl_definition 2 #6227 #6226
[attach-var-names] #6228 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6229 or #3188 #6225
[inst-discovered] theory-solving 0x0 basic# ; #6226
[mk-app] #6230 = #6226 #6229
[instance] 0x0 #6230
[attach-enode] #6230 0
[end-of-instance]
[mk-quant] #6230 internal_core__slice__iter__impl&__171_trait_impl_definition 2 #6227 #6229
[attach-var-names] #6230 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6231 tr_bound%vstd!std_specs.iter.IteratorSpec. #120 #3506
[mk-app] #6232 => #2967 #6231
[mk-app] #6233 pattern #6231
[mk-quant] #6234 internal_vstd__std_specs__slice__impl&__10_trait_impl_definition 2 #6233 #6232
[attach-var-names] #6234 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6235 or #3188 #6231
[inst-discovered] theory-solving 0x0 basic# ; #6232
[mk-app] #6236 = #6232 #6235
[instance] 0x0 #6236
[attach-enode] #6236 0
[end-of-instance]
[mk-quant] #6236 internal_vstd__std_specs__slice__impl&__10_trait_impl_definition 2 #6233 #6235
[attach-var-names] #6236 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6237 fuel_bool_default #881
[mk-app] #6238 %%lambda%%1 #1249 #263 #32
[mk-app] #6239 %%apply%%0 #6238 #33
[mk-app] #6240 = #6239 #3905
[mk-app] #6241 pattern #6239
[mk-quant] #6242 k!9526 4 #6241 #6240
[attach-var-names] #6242 (|i$| ; |Poly|) (|%%hole%%2| ; |Poly|) (|%%hole%%1| ; |Type|) (|%%hole%%0| ; |Dcr|)
[mk-app] #6243 fuel_bool #881
[mk-app] #6244 vstd!seq_lib.impl&%0.as_ref.? #64 #65 #33
[mk-app] #6245 REF #64
[mk-app] #6246 %%lambda%%1 #64 #65 #33
[mk-app] #6247 mk_fun #6246
[mk-app] #6248 Poly%fun%1. #6247
[mk-app] #6249 vstd!seq.Seq.new.? #6245 #65 #5581 #6248
[mk-app] #6250 = #6244 #6249
[mk-app] #6251 pattern #6244
[mk-quant] #6252 internal_vstd!seq_lib.impl&__0.as_ref.?_definition 3 #6251 #6250
[attach-var-names] #6252 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6253 => #6243 #6252
[mk-app] #6254 not #6243
[mk-app] #6255 or #6254 #6252
[inst-discovered] theory-solving 0x0 basic# ; #6253
[mk-app] #6256 = #6253 #6255
[instance] 0x0 #6256
[attach-enode] #6256 0
[end-of-instance]
[mk-app] #6256 TYPE%vstd!seq.Seq. #6245 #65
[mk-app] #6257 has_type #6244 #6256
[mk-app] #6258 => #3875 #6257
[mk-quant] #6259 internal_vstd!seq_lib.impl&__0.as_ref.?_pre_post_definition 3 #6251 #6258
[attach-var-names] #6259 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6260 or #3881 #6257
[inst-discovered] theory-solving 0x0 basic# ; #6258
[mk-app] #6261 = #6258 #6260
[instance] 0x0 #6261
[attach-enode] #6261 0
[end-of-instance]
[mk-quant] #6261 internal_vstd!seq_lib.impl&__0.as_ref.?_pre_post_definition 3 #6251 #6260
[attach-var-names] #6261 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6262 fuel_bool_default #887
[mk-app] #6263 fuel_bool #887
[mk-app] #6264 vstd!seq_lib.impl&%1.unref.? #64 #65 #33
[mk-app] #6265 vstd!seq.Seq.len.? #6245 #65 #33
[mk-app] #6266 I #6265
[mk-app] #6267 %%lambda%%1 #6245 #65 #33
[mk-app] #6268 mk_fun #6267
[mk-app] #6269 Poly%fun%1. #6268
[mk-app] #6270 vstd!seq.Seq.new.? #64 #65 #6266 #6269
[mk-app] #6271 = #6264 #6270
[mk-app] #6272 pattern #6264
[mk-quant] #6273 internal_vstd!seq_lib.impl&__1.unref.?_definition 3 #6272 #6271
[attach-var-names] #6273 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6274 => #6263 #6273
[mk-app] #6275 not #6263
[mk-app] #6276 or #6275 #6273
[inst-discovered] theory-solving 0x0 basic# ; #6274
[mk-app] #6277 = #6274 #6276
[instance] 0x0 #6277
[attach-enode] #6277 0
[end-of-instance]
[mk-app] #6277 has_type #33 #6256
[mk-app] #6278 has_type #6264 #3874
[mk-app] #6279 => #6277 #6278
[mk-quant] #6280 internal_vstd!seq_lib.impl&__1.unref.?_pre_post_definition 3 #6272 #6279
[attach-var-names] #6280 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6281 not #6277
[mk-app] #6282 or #6281 #6278
[inst-discovered] theory-solving 0x0 basic# ; #6279
[mk-app] #6283 = #6279 #6282
[instance] 0x0 #6283
[attach-enode] #6283 0
[end-of-instance]
[mk-quant] #6283 internal_vstd!seq_lib.impl&__1.unref.?_pre_post_definition 3 #6272 #6282
[attach-var-names] #6283 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6284 ens%core!slice.iter.impl&%1.into_iter. #1249 #263 #32 #33
[mk-app] #6285 ens%core!iter.traits.collect.IntoIterator.into_iter. #3483 #3515 #32 #33
[mk-app] #6286 vstd!std_specs.iter.IteratorSpec.remaining.? #120 #3476 #33
[mk-app] #6287 vstd!seq_lib.impl&%0.as_ref.? #1249 #263 #4571
[mk-app] #6288 = #6286 #6287
[mk-app] #6289 vstd!std_specs.slice.into_iter_elts.? #1249 #263 #33
[mk-app] #6290 vstd!seq_lib.impl&%1.unref.? #1249 #263 #6286
[mk-app] #6291 = #6289 #6290
[mk-app] #6292 vstd!std_specs.iter.IteratorSpec.decrease.? #120 #3476 #33
[mk-app] #6293 %Poly%core!option.Option. #6292
[mk-app] #6294 is-core!option.Option./Some #6293
[mk-app] #6295 and #6285 #6288 #6291 #6294
[mk-app] #6296 = #6284 #6295
[mk-app] #6297 pattern #6284
[mk-quant] #6298 internal_ens__core!slice.iter.impl&__1.into_iter._definition 4 #6297 #6296
[attach-var-names] #6298 (|iter!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6299 is #6293
[inst-discovered] theory-solving 0x0 datatype# ; #6294
[mk-app] #6300 = #6294 #6299
[instance] 0x0 #6300
[attach-enode] #6300 0
[end-of-instance]
[mk-app] #6300 and #6285 #6288 #6291 #6299
[mk-app] #6301 = #6284 #6300
[mk-quant] #6302 internal_ens__core!slice.iter.impl&__1.into_iter._definition 4 #6297 #6301
[attach-var-names] #6302 (|iter!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6303 req%vstd!std_specs.vec.vec_index. #1248 #1229 #1249 #263 #32 #122
[mk-app] #6304 %%global_location_label%%10
[mk-app] #6305 TYPE%alloc!vec.Vec. #1248 #1229 #1249 #263
[mk-app] #6306 vstd!view.View.view.? #120 #6305 #32
[mk-app] #6307 vstd!seq.Seq.len.? #1248 #1229 #6306
[mk-app] #6308 < #122 #6307
[mk-app] #6309 => #6304 #6308
[mk-app] #6310 = #6303 #6309
[mk-app] #6311 pattern #6303
[mk-quant] #6312 internal_req__vstd!std_specs.vec.vec_index._definition 6 #6311 #6310
[attach-var-names] #6312 (|i!| ; |Int|) (|vec!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6313 <= #6307 #122
[mk-app] #6314 not #6313
[inst-discovered] theory-solving 0x0 arith# ; #6308
[mk-app] #6315 = #6308 #6314
[instance] 0x0 #6315
[attach-enode] #6315 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #6315 * #363 #122
[mk-app] #6316 + #6315 #6307
[attach-meaning] #363 arith (- 1)
[mk-app] #6317 * #363 #6307
[mk-app] #6318 + #122 #6317
[mk-app] #6315 >= #6318 #334
[inst-discovered] theory-solving 0x0 arith# ; #6313
[mk-app] #6316 = #6313 #6315
[instance] 0x0 #6316
[attach-enode] #6316 0
[end-of-instance]
[mk-app] #6316 not #6315
[mk-app] #6319 not #6304
[mk-app] #6320 or #6319 #6316
[mk-app] #6321 => #6304 #6316
[inst-discovered] theory-solving 0x0 basic# ; #6321
[mk-app] #6322 = #6321 #6320
[instance] 0x0 #6322
[attach-enode] #6322 0
[end-of-instance]
[mk-app] #6321 = #6303 #6320
[mk-quant] #6322 internal_req__vstd!std_specs.vec.vec_index._definition 6 #6311 #6321
[attach-var-names] #6322 (|i!| ; |Int|) (|vec!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6313 ens%vstd!std_specs.vec.vec_index. #1271 #1272 #1216 #1217 #43 #219 #33
[mk-app] #6314 TYPE%alloc!vec.Vec. #1271 #1272 #1216 #1217
[mk-app] #6323 vstd!view.View.view.? #120 #6314 #43
[mk-app] #6324 vstd!seq.Seq.index.? #1271 #1272 #6323 #769
[mk-app] #6325 = #33 #6324
[mk-app] #6326 and #6111 #6325
[mk-app] #6327 = #6313 #6326
[mk-app] #6328 pattern #6313
[mk-quant] #6329 internal_ens__vstd!std_specs.vec.vec_index._definition 7 #6328 #6327
[attach-var-names] #6329 (|element!| ; |Poly|) (|i!| ; |Int|) (|vec!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6330 ens%alloc!vec.impl&%1.len. #1248 #1229 #1249 #263 #32 #122
[mk-app] #6331 vstd!std_specs.vec.spec_vec_len.? #1248 #1229 #1249 #263 #32
[mk-app] #6332 = #122 #6331
[mk-app] #6333 and #467 #6332
[mk-app] #6334 = #6330 #6333
[mk-app] #6335 pattern #6330
[mk-quant] #6336 internal_ens__alloc!vec.impl&__1.len._definition 6 #6335 #6334
[attach-var-names] #6336 (|len!| ; |Int|) (|vec!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6337 ens%alloc!vec.impl&%0.new. #64 #65 #33
[mk-app] #6338 vstd!seq.Seq.empty.? #64 #65
[mk-app] #6339 = #5486 #6338
[mk-app] #6340 and #5485 #6339
[mk-app] #6341 = #6337 #6340
[mk-app] #6342 pattern #6337
[mk-quant] #6343 internal_ens__alloc!vec.impl&__0.new._definition 3 #6342 #6341
[attach-var-names] #6343 (|v!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6344 TYPE%alloc!vec.into_iter.IntoIter. #1216 #1217 #64 #65
[mk-app] #6345 has_type #33 #6344
[mk-app] #6346 vstd!std_specs.vec.into_iter_elts.? #1216 #1217 #64 #65 #33
[mk-app] #6347 has_type #6346 #3974
[mk-app] #6348 => #6345 #6347
[mk-app] #6349 pattern #6346
[mk-quant] #6350 internal_vstd!std_specs.vec.into_iter_elts.?_pre_post_definition 5 #6349 #6348
[attach-var-names] #6350 (|i!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6351 not #6345
[mk-app] #6352 or #6351 #6347
[inst-discovered] theory-solving 0x0 basic# ; #6348
[mk-app] #6353 = #6348 #6352
[instance] 0x0 #6353
[attach-enode] #6353 0
[end-of-instance]
[mk-quant] #6353 internal_vstd!std_specs.vec.into_iter_elts.?_pre_post_definition 5 #6349 #6352
[attach-var-names] #6353 (|i!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6354 fuel_bool_default #841
[mk-app] #6355 fuel_bool #841
[mk-app] #6356 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #120 #6344 #33
[mk-app] #6357 = #6356 #6187
[mk-app] #6358 => #5446 #6357
[mk-app] #6359 pattern #6356
[mk-quant] #6360 internal_vstd!std_specs.vec.impl&__3.obeys_prophetic_iter_laws.?_definition 5 #6359 #6358
[attach-var-names] #6360 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6361 => #6355 #6360
[mk-app] #6362 or #5447 #6357
[inst-discovered] theory-solving 0x0 basic# ; #6358
[mk-app] #6363 = #6358 #6362
[instance] 0x0 #6363
[attach-enode] #6363 0
[end-of-instance]
[mk-quant] #6363 internal_vstd!std_specs.vec.impl&__3.obeys_prophetic_iter_laws.?_definition 5 #6359 #6362
[attach-var-names] #6363 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6364 not #6355
[mk-app] #6365 or #6364 #6363
[mk-app] #6366 => #6355 #6363
[inst-discovered] theory-solving 0x0 basic# ; #6366
[mk-app] #6367 = #6366 #6365
[instance] 0x0 #6367
[attach-enode] #6367 0
[end-of-instance]
[mk-app] #6366 fuel_bool_default #842
[mk-app] #6367 fuel_bool #842
[mk-app] #6368 tr_bound%core!alloc.Allocator. #1249 #263
[mk-app] #6369 and #3403 #3106 #6368
[mk-app] #6370 TYPE%alloc!vec.into_iter.IntoIter. #1248 #1229 #1249 #263
[mk-app] #6371 vstd!std_specs.iter.IteratorSpec.peek.? #120 #6370 #32 #33
[mk-app] #6372 vstd!std_specs.vec.into_iter_elts.? #1248 #1229 #1249 #263 #32
[mk-app] #6373 vstd!seq.Seq.len.? #1248 #1229 #6372
[mk-app] #6374 < #186 #6373
[mk-app] #6375 and #510 #6374
[mk-app] #6376 vstd!seq.Seq.index.? #1248 #1229 #6372 #33
[mk-app] #6377 core!option.Option./Some #6376
[mk-app] #6378 if #6375 #6377 #1714
[mk-app] #6379 Poly%core!option.Option. #6378
[mk-app] #6380 = #6371 #6379
[mk-app] #6381 => #6369 #6380
[mk-app] #6382 pattern #6371
[mk-quant] #6383 internal_vstd!std_specs.vec.impl&__3.peek.?_definition 6 #6382 #6381
[attach-var-names] #6383 (|index!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6384 => #6367 #6383
[attach-meaning] #363 arith (- 1)
[mk-app] #6385 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #6385 = #510 #514
[instance] 0x0 #6385
[attach-enode] #6385 0
[end-of-instance]
[mk-app] #6385 <= #6373 #186
[mk-app] #6386 not #6385
[inst-discovered] theory-solving 0x0 arith# ; #6374
[mk-app] #6387 = #6374 #6386
[instance] 0x0 #6387
[attach-enode] #6387 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #6387 * #363 #186
[mk-app] #6388 + #6387 #6373
[attach-meaning] #363 arith (- 1)
[mk-app] #6389 * #363 #6373
[mk-app] #6390 + #186 #6389
[mk-app] #6387 >= #6390 #334
[inst-discovered] theory-solving 0x0 arith# ; #6385
[mk-app] #6388 = #6385 #6387
[instance] 0x0 #6388
[attach-enode] #6388 0
[end-of-instance]
[mk-app] #6388 not #6387
[mk-app] #6391 and #514 #6388
[mk-app] #6392 if #6391 #6377 #1714
[mk-app] #6393 Poly%core!option.Option. #6392
[mk-app] #6394 = #6371 #6393
[mk-app] #6395 not #6369
[mk-app] #6396 or #6395 #6394
[mk-app] #6397 => #6369 #6394
[inst-discovered] theory-solving 0x0 basic# ; #6397
[mk-app] #6398 = #6397 #6396
[instance] 0x0 #6398
[attach-enode] #6398 0
[end-of-instance]
[mk-quant] #6397 internal_vstd!std_specs.vec.impl&__3.peek.?_definition 6 #6382 #6396
[attach-var-names] #6397 (|index!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6385 not #6367
[mk-app] #6386 or #6385 #6397
[mk-app] #6398 => #6367 #6397
[inst-discovered] theory-solving 0x0 basic# ; #6398
[mk-app] #6399 = #6398 #6386
[instance] 0x0 #6399
[attach-enode] #6399 0
[end-of-instance]
[mk-app] #6398 tr_bound%core!iter.traits.iterator.Iterator. #120 #3699
[mk-app] #6399 => #3269 #6398
[mk-app] #6400 pattern #6398
[mk-quant] #6401 internal_alloc__vec__into_iter__impl&__6_trait_impl_definition 4 #6400 #6399
[attach-var-names] #6401 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6402 or #3276 #6398
[inst-discovered] theory-solving 0x0 basic# ; #6399
[mk-app] #6403 = #6399 #6402
[instance] 0x0 #6403
[attach-enode] #6403 0
[end-of-instance]
[mk-quant] #6403 internal_alloc__vec__into_iter__impl&__6_trait_impl_definition 4 #6400 #6402
[attach-var-names] #6403 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6404 tr_bound%vstd!std_specs.iter.IteratorSpec. #120 #3699
[mk-app] #6405 => #3269 #6404
[mk-app] #6406 pattern #6404
[mk-quant] #6407 internal_vstd__std_specs__vec__impl&__3_trait_impl_definition 4 #6406 #6405
[attach-var-names] #6407 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6408 or #3276 #6404
[inst-discovered] theory-solving 0x0 basic# ; #6405
[mk-app] #6409 = #6405 #6408
[instance] 0x0 #6409
[attach-enode] #6409 0
[end-of-instance]
[mk-quant] #6409 internal_vstd__std_specs__vec__impl&__3_trait_impl_definition 4 #6406 #6408
[attach-var-names] #6409 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6410 ens%alloc!vec.impl&%17.into_iter. #1248 #1229 #1249 #263 #32 #33
[mk-app] #6411 ens%core!iter.traits.collect.IntoIterator.into_iter. #120 #6305 #32 #33
[mk-app] #6412 vstd!std_specs.iter.IteratorSpec.remaining.? #120 #6370 #33
[mk-app] #6413 = #6412 #6306
[mk-app] #6414 vstd!std_specs.vec.into_iter_elts.? #1248 #1229 #1249 #263 #33
[mk-app] #6415 = #6414 #6412
[mk-app] #6416 vstd!std_specs.iter.IteratorSpec.decrease.? #120 #6370 #33
[mk-app] #6417 %Poly%core!option.Option. #6416
[mk-app] #6418 is-core!option.Option./Some #6417
[mk-app] #6419 and #6411 #6413 #6415 #6418
[mk-app] #6420 = #6410 #6419
[mk-app] #6421 pattern #6410
[mk-quant] #6422 internal_ens__alloc!vec.impl&__17.into_iter._definition 6 #6421 #6420
[attach-var-names] #6422 (|iter!| ; |Poly|) (|vec!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6423 is #6417
[inst-discovered] theory-solving 0x0 datatype# ; #6418
[mk-app] #6424 = #6418 #6423
[instance] 0x0 #6424
[attach-enode] #6424 0
[end-of-instance]
[mk-app] #6424 and #6411 #6413 #6415 #6423
[mk-app] #6425 = #6410 #6424
[mk-quant] #6426 internal_ens__alloc!vec.impl&__17.into_iter._definition 6 #6421 #6425
[attach-var-names] #6426 (|iter!| ; |Poly|) (|vec!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6427 ens%alloc!vec.impl&%18.into_iter. #1248 #1229 #1249 #263 #32 #33
[mk-app] #6428 ens%core!iter.traits.collect.IntoIterator.into_iter. #3452 #6305 #32 #33
[mk-app] #6429 TYPE%core!slice.iter.Iter. #1248 #1229
[mk-app] #6430 vstd!std_specs.iter.IteratorSpec.remaining.? #120 #6429 #33
[mk-app] #6431 vstd!seq_lib.impl&%0.as_ref.? #1248 #1229 #6306
[mk-app] #6432 = #6430 #6431
[mk-app] #6433 vstd!std_specs.slice.into_iter_elts.? #1248 #1229 #33
[mk-app] #6434 vstd!seq_lib.impl&%1.unref.? #1248 #1229 #6430
[mk-app] #6435 = #6433 #6434
[mk-app] #6436 vstd!std_specs.iter.IteratorSpec.decrease.? #120 #6429 #33
[mk-app] #6437 %Poly%core!option.Option. #6436
[mk-app] #6438 is-core!option.Option./Some #6437
[mk-app] #6439 and #6428 #6432 #6435 #6438
[mk-app] #6440 = #6427 #6439
[mk-app] #6441 pattern #6427
[mk-quant] #6442 internal_ens__alloc!vec.impl&__18.into_iter._definition 6 #6441 #6440
[attach-var-names] #6442 (|iter!| ; |Poly|) (|vec!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6443 is #6437
[inst-discovered] theory-solving 0x0 datatype# ; #6438
[mk-app] #6444 = #6438 #6443
[instance] 0x0 #6444
[attach-enode] #6444 0
[end-of-instance]
[mk-app] #6444 and #6428 #6432 #6435 #6443
[mk-app] #6445 = #6427 #6444
[mk-quant] #6446 internal_ens__alloc!vec.impl&__18.into_iter._definition 6 #6441 #6445
[attach-var-names] #6446 (|iter!| ; |Poly|) (|vec!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6447 ens%core!array.impl&%13.into_iter. #1248 #1229 #1249 #263 #32 #33
[mk-app] #6448 ens%core!iter.traits.collect.IntoIterator.into_iter. #3452 #4774 #32 #33
[mk-app] #6449 vstd!seq_lib.impl&%0.as_ref.? #1248 #1229 #4776
[mk-app] #6450 = #6430 #6449
[mk-app] #6451 and #6448 #6450 #6438
[mk-app] #6452 = #6447 #6451
[mk-app] #6453 pattern #6447
[mk-quant] #6454 internal_ens__core!array.impl&__13.into_iter._definition 6 #6453 #6452
[attach-var-names] #6454 (|iter!| ; |Poly|) (|s!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #6438
[mk-app] #6455 = #6438 #6443
[instance] 0x0 #6455
[attach-enode] #6455 0
[end-of-instance]
[mk-app] #6455 and #6448 #6450 #6443
[mk-app] #6456 = #6447 #6455
[mk-quant] #6457 internal_ens__core!array.impl&__13.into_iter._definition 6 #6453 #6456
[attach-var-names] #6457 (|iter!| ; |Poly|) (|s!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6458 vstd!pervasive.arbitrary.? #44 #45
[mk-app] #6459 has_type #6458 #45
[mk-app] #6460 pattern #6458
[mk-quant] #6461 internal_vstd!pervasive.arbitrary.?_pre_post_definition 2 #6460 #6459
[attach-var-names] #6461 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6462 tr_bound%vstd!view.View. #120 #1341
[mk-app] #6463 ens%alloc!string.impl&%0.new. #219 #1335
[mk-app] #6464 vstd!view.View.view.? #120 #1341 #1336
[mk-app] #6465 vstd!seq.Seq.empty.? #120 #244
[mk-app] #6466 = #6464 #6465
[mk-app] #6467 = #6463 #6466
[mk-app] #6468 pattern #6463
[mk-quant] #6469 internal_ens__alloc!string.impl&__0.new._definition 2 #6468 #6467
[attach-var-names] #6469 (|res!| ; |alloc!string.String.|) (|no%param| ; |Int|)
[mk-app] #6470 fuel_bool_default #861
[mk-app] #6471 fuel_bool #861
[mk-app] #6472 vstd!seq.impl&%2.skip.? #1249 #263 #32 #33
[mk-app] #6473 I #3887
[mk-app] #6474 vstd!seq.Seq.subrange.? #1249 #263 #32 #33 #6473
[mk-app] #6475 = #6472 #6474
[mk-app] #6476 pattern #6472
[mk-quant] #6477 internal_vstd!seq.impl&__2.skip.?_definition 4 #6476 #6475
[attach-var-names] #6477 (|n!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6478 => #6471 #6477
[mk-app] #6479 not #6471
[mk-app] #6480 or #6479 #6477
[inst-discovered] theory-solving 0x0 basic# ; #6478
[mk-app] #6481 = #6478 #6480
[instance] 0x0 #6481
[attach-enode] #6481 0
[end-of-instance]
[mk-app] #6481 has_type #6472 #3156
[mk-app] #6482 => #3895 #6481
[mk-quant] #6483 internal_vstd!seq.impl&__2.skip.?_pre_post_definition 4 #6476 #6482
[attach-var-names] #6483 (|n!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6484 or #3910 #6481
[inst-discovered] theory-solving 0x0 basic# ; #6482
[mk-app] #6485 = #6482 #6484
[instance] 0x0 #6485
[attach-enode] #6485 0
[end-of-instance]
[mk-quant] #6485 internal_vstd!seq.impl&__2.skip.?_pre_post_definition 4 #6476 #6484
[attach-var-names] #6485 (|n!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6486 u_tokenizer!text.Show.shown.? #64 #65 #33
[mk-app] #6487 has_type #6486 #1463
[mk-app] #6488 => #68 #6487
[mk-app] #6489 pattern #6486
[mk-quant] #6490 internal_u_tokenizer!text.Show.shown.?_pre_post_definition 3 #6489 #6488
[attach-var-names] #6490 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6491 or #1726 #6487
[inst-discovered] theory-solving 0x0 basic# ; #6488
[mk-app] #6492 = #6488 #6491
[instance] 0x0 #6492
[attach-enode] #6492 0
[end-of-instance]
[mk-quant] #6492 internal_u_tokenizer!text.Show.shown.?_pre_post_definition 3 #6489 #6491
[attach-var-names] #6492 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6493 tr_bound%u_tokenizer!text.Show. #120 #203
[mk-app] #6494 u_tokenizer!text.StrShim.sv.? #64 #65 #33
[mk-app] #6495 has_type #6494 #1463
[mk-app] #6496 => #68 #6495
[mk-app] #6497 pattern #6494
[mk-quant] #6498 internal_u_tokenizer!text.StrShim.sv.?_pre_post_definition 3 #6497 #6496
[attach-var-names] #6498 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6499 or #1726 #6495
[inst-discovered] theory-solving 0x0 basic# ; #6496
[mk-app] #6500 = #6496 #6499
[instance] 0x0 #6500
[attach-enode] #6500 0
[end-of-instance]
[mk-quant] #6500 internal_u_tokenizer!text.StrShim.sv.?_pre_post_definition 3 #6497 #6499
[attach-var-names] #6500 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6501 req%vstd!seq_lib.impl&%0.drop_last. #64 #65 #33
[mk-app] #6502 %%global_location_label%%11
[mk-app] #6503 => #6502 #5569
[mk-app] #6504 = #6501 #6503
[mk-app] #6505 pattern #6501
[mk-quant] #6506 internal_req__vstd!seq_lib.impl&__0.drop_last._definition 3 #6505 #6504
[attach-var-names] #6506 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6507 not #6502
[mk-app] #6508 or #6507 #5569
[inst-discovered] theory-solving 0x0 basic# ; #6503
[mk-app] #6509 = #6503 #6508
[instance] 0x0 #6509
[attach-enode] #6509 0
[end-of-instance]
[mk-app] #6509 = #6501 #6508
[mk-quant] #6510 internal_req__vstd!seq_lib.impl&__0.drop_last._definition 3 #6505 #6509
[attach-var-names] #6510 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6511 fuel_bool_default #885
[mk-app] #6512 fuel_bool #885
[mk-app] #6513 vstd!seq_lib.impl&%0.drop_last.? #64 #65 #33
[mk-app] #6514 Sub #3876 #289
[mk-app] #6515 I #6514
[mk-app] #6516 vstd!seq.Seq.subrange.? #64 #65 #33 #5644 #6515
[mk-app] #6517 = #6513 #6516
[mk-app] #6518 pattern #6513
[mk-quant] #6519 internal_vstd!seq_lib.impl&__0.drop_last.?_definition 3 #6518 #6517
[attach-var-names] #6519 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6520 => #6512 #6519
[mk-app] #6521 not #6512
[mk-app] #6522 or #6521 #6519
[inst-discovered] theory-solving 0x0 basic# ; #6520
[mk-app] #6523 = #6520 #6522
[instance] 0x0 #6523
[attach-enode] #6523 0
[end-of-instance]
[mk-app] #6523 has_type #6513 #3874
[mk-app] #6524 => #3875 #6523
[mk-quant] #6525 internal_vstd!seq_lib.impl&__0.drop_last.?_pre_post_definition 3 #6518 #6524
[attach-var-names] #6525 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6526 or #3881 #6523
[inst-discovered] theory-solving 0x0 basic# ; #6524
[mk-app] #6527 = #6524 #6526
[instance] 0x0 #6527
[attach-enode] #6527 0
[end-of-instance]
[mk-quant] #6527 internal_vstd!seq_lib.impl&__0.drop_last.?_pre_post_definition 3 #6518 #6526
[attach-var-names] #6527 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6528 fuel_bool_default #918
[mk-app] #6529 fuel_bool #918
[mk-app] #6530 u_tokenizer!text.clen.? #33
[attach-meaning] #280 arith 32
[mk-app] #6531 uClip #280 #186
[attach-meaning] #287 arith 128
[mk-app] #6532 < #6531 #287
[mk-app] #6533 Int
[attach-meaning] #6533 arith 2048
[mk-app] #6534 < #6531 #6533
[mk-app] #6535 Int
[attach-meaning] #6535 arith 2
[attach-meaning] #278 arith 65536
[mk-app] #6536 < #6531 #278
[mk-app] #6537 Int
[attach-meaning] #6537 arith 3
[mk-app] #6538 Int
[attach-meaning] #6538 arith 4
[mk-app] #6539 if #6536 #6537 #6538
[mk-app] #6540 if #6534 #6535 #6539
[mk-app] #6541 if #6532 #289 #6540
[mk-app] #6542 = #6530 #6541
[mk-app] #6543 pattern #6530
[mk-quant] #6544 internal_u_tokenizer!text.clen.?_definition 1 #6543 #6542
[attach-var-names] #6544 (|c!| ; |Poly|)
[mk-app] #6545 => #6529 #6544
[mk-app] #6546 <= #287 #6531
[mk-app] #6547 not #6546
[inst-discovered] theory-solving 0x0 arith# ; #6532
[mk-app] #6548 = #6532 #6547
[instance] 0x0 #6548
[attach-enode] #6548 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #6548 * #363 #6531
[attach-meaning] #298 arith (- 128)
[attach-meaning] #287 arith 128
[mk-app] #6549 >= #6531 #287
[inst-discovered] theory-solving 0x0 arith# ; #6546
[mk-app] #6548 = #6546 #6549
[instance] 0x0 #6548
[attach-enode] #6548 0
[end-of-instance]
[mk-app] #6548 not #6549
[mk-app] #6550 <= #6533 #6531
[mk-app] #6551 not #6550
[inst-discovered] theory-solving 0x0 arith# ; #6534
[mk-app] #6552 = #6534 #6551
[instance] 0x0 #6552
[attach-enode] #6552 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #6552 * #363 #6531
[mk-app] #6553 Int
[attach-meaning] #6553 arith (- 2048)
[attach-meaning] #6533 arith 2048
[mk-app] #6554 >= #6531 #6533
[inst-discovered] theory-solving 0x0 arith# ; #6550
[mk-app] #6552 = #6550 #6554
[instance] 0x0 #6552
[attach-enode] #6552 0
[end-of-instance]
[mk-app] #6552 not #6554
[mk-app] #6553 <= #278 #6531
[mk-app] #6555 not #6553
[inst-discovered] theory-solving 0x0 arith# ; #6536
[mk-app] #6556 = #6536 #6555
[instance] 0x0 #6556
[attach-enode] #6556 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #6556 * #363 #6531
[mk-app] #6557 Int
[attach-meaning] #6557 arith (- 65536)
[attach-meaning] #278 arith 65536
[mk-app] #6558 >= #6531 #278
[inst-discovered] theory-solving 0x0 arith# ; #6553
[mk-app] #6556 = #6553 #6558
[instance] 0x0 #6556
[attach-enode] #6556 0
[end-of-instance]
[mk-app] #6556 not #6558
[mk-app] #6557 if #6558 #6538 #6537
[mk-app] #6559 if #6556 #6537 #6538
[inst-discovered] theory-solving 0x0 arith# ; #6559
[mk-app] #6560 = #6559 #6557
[instance] 0x0 #6560
[attach-enode] #6560 0
[end-of-instance]
[mk-app] #6559 if #6554 #6557 #6535
[mk-app] #6560 if #6552 #6535 #6557
[inst-discovered] theory-solving 0x0 arith# ; #6560
[mk-app] #6561 = #6560 #6559
[instance] 0x0 #6561
[attach-enode] #6561 0
[end-of-instance]
[mk-app] #6560 if #6549 #6559 #289
[mk-app] #6561 if #6548 #289 #6559
[inst-discovered] theory-solving 0x0 arith# ; #6561
[mk-app] #6562 = #6561 #6560
[instance] 0x0 #6562
[attach-enode] #6562 0
[end-of-instance]
[mk-app] #6561 = #6530 #6560
[mk-quant] #6562 internal_u_tokenizer!text.clen.?_definition 1 #6543 #6561
[attach-var-names] #6562 (|c!| ; |Poly|)
[mk-app] #6556 not #6529
[mk-app] #6553 or #6556 #6562
[mk-app] #6555 => #6529 #6562
[inst-discovered] theory-solving 0x0 basic# ; #6555
[mk-app] #6548 = #6555 #6553
[instance] 0x0 #6548
[attach-enode] #6548 0
[end-of-instance]
[mk-app] #6555 req%vstd!seq.Seq.last. #64 #65 #33
[mk-app] #6548 %%global_location_label%%12
[mk-app] #6546 < #334 #3876
[mk-app] #6547 => #6548 #6546
[mk-app] #6552 = #6555 #6547
[mk-app] #6550 pattern #6555
[mk-quant] #6551 internal_req__vstd!seq.Seq.last._definition 3 #6550 #6552
[attach-var-names] #6551 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6563 <= #3876 #334
[mk-app] #6564 not #6563
[inst-discovered] theory-solving 0x0 arith# ; #6546
[mk-app] #6565 = #6546 #6564
[instance] 0x0 #6565
[attach-enode] #6565 0
[end-of-instance]
[mk-app] #6565 not #6548
[mk-app] #6566 or #6565 #6564
[mk-app] #6567 => #6548 #6564
[inst-discovered] theory-solving 0x0 basic# ; #6567
[mk-app] #6568 = #6567 #6566
[instance] 0x0 #6568
[attach-enode] #6568 0
[end-of-instance]
[mk-app] #6567 = #6555 #6566
[mk-quant] #6568 internal_req__vstd!seq.Seq.last._definition 3 #6550 #6567
[attach-var-names] #6568 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6569 fuel_bool_default #863
[mk-app] #6570 fuel_bool #863
[mk-app] #6571 vstd!seq.Seq.last.? #64 #65 #33
[mk-app] #6572 vstd!seq.Seq.index.? #64 #65 #33 #6515
[mk-app] #6573 = #6571 #6572
[mk-app] #6574 pattern #6571
[mk-quant] #6575 internal_vstd!seq.Seq.last.?_definition 3 #6574 #6573
[attach-var-names] #6575 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6576 => #6570 #6575
[mk-app] #6577 not #6570
[mk-app] #6578 or #6577 #6575
[inst-discovered] theory-solving 0x0 basic# ; #6576
[mk-app] #6579 = #6576 #6578
[instance] 0x0 #6579
[attach-enode] #6579 0
[end-of-instance]
[mk-app] #6579 has_type #6571 #65
[mk-app] #6580 => #3875 #6579
[mk-quant] #6581 internal_vstd!seq.Seq.last.?_pre_post_definition 3 #6574 #6580
[attach-var-names] #6581 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6582 or #3881 #6579
[inst-discovered] theory-solving 0x0 basic# ; #6580
[mk-app] #6583 = #6580 #6582
[instance] 0x0 #6583
[attach-enode] #6583 0
[end-of-instance]
[mk-quant] #6583 internal_vstd!seq.Seq.last.?_pre_post_definition 3 #6574 #6582
[attach-var-names] #6583 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6584 fuel_bool_default #919
[mk-var] #6585 0
[mk-app] #6586 u_tokenizer!text.rec%blen.? #32 #6585
[mk-app] #6587 zero
[mk-app] #6588 u_tokenizer!text.rec%blen.? #32 #6587
[mk-app] #6589 = #6586 #6588
[mk-app] #6590 pattern #6586
[mk-quant] #6591 internal_u_tokenizer!text.blen._fuel_to_zero_definition 2 #6590 #6589
[attach-var-names] #6591 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #6592 has_type #32 #1463
[mk-app] #6593 succ #6585
[mk-app] #6594 u_tokenizer!text.rec%blen.? #32 #6593
[mk-app] #6595 vstd!seq.Seq.len.? #120 #244 #32
[mk-app] #6596 = #6595 #334
[mk-app] #6597 vstd!seq_lib.impl&%0.drop_last.? #120 #244 #32
[mk-app] #6598 u_tokenizer!text.rec%blen.? #6597 #6585
[mk-app] #6599 vstd!seq.Seq.last.? #120 #244 #32
[mk-app] #6600 u_tokenizer!text.clen.? #6599
[mk-app] #6601 Add #6598 #6600
[mk-app] #6602 if #6596 #334 #6601
[mk-app] #6603 = #6594 #6602
[mk-app] #6604 => #6592 #6603
[mk-app] #6605 pattern #6594
[mk-quant] #6606 internal_u_tokenizer!text.blen._fuel_to_body_definition 2 #6605 #6604
[attach-var-names] #6606 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #6607 not #6592
[mk-app] #6608 or #6607 #6603
[inst-discovered] theory-solving 0x0 basic# ; #6604
[mk-app] #6609 = #6604 #6608
[instance] 0x0 #6609
[attach-enode] #6609 0
[end-of-instance]
[mk-quant] #6609 internal_u_tokenizer!text.blen._fuel_to_body_definition 2 #6605 #6608
[attach-var-names] #6609 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #6610 fuel_bool #919
[mk-app] #6611 u_tokenizer!text.blen.? #33
[mk-app] #6612 fuel_nat%u_tokenizer!text.blen.
[mk-app] #6613 succ #6612
[mk-app] #6614 u_tokenizer!text.rec%blen.? #33 #6613
[mk-app] #6615 = #6611 #6614
[mk-app] #6616 => #1464 #6615
[mk-app] #6617 pattern #6611
[mk-quant] #6618 internal_u_tokenizer!text.blen.?_definition 1 #6617 #6616
[attach-var-names] #6618 (|s!| ; |Poly|)
[mk-app] #6619 => #6610 #6618
[mk-app] #6620 or #1471 #6615
[inst-discovered] theory-solving 0x0 basic# ; #6616
[mk-app] #6621 = #6616 #6620
[instance] 0x0 #6621
[attach-enode] #6621 0
[end-of-instance]
[mk-quant] #6621 internal_u_tokenizer!text.blen.?_definition 1 #6617 #6620
[attach-var-names] #6621 (|s!| ; |Poly|)
[mk-app] #6622 not #6610
[mk-app] #6623 or #6622 #6621
[mk-app] #6624 => #6610 #6621
[inst-discovered] theory-solving 0x0 basic# ; #6624
[mk-app] #6625 = #6624 #6623
[instance] 0x0 #6625
[attach-enode] #6625 0
[end-of-instance]
[mk-app] #6624 fuel_bool_default #925
[mk-app] #6625 u_tokenizer!text.rec%end_trimmed.? #32 #6585
[mk-app] #6626 u_tokenizer!text.rec%end_trimmed.? #32 #6587
[mk-app] #6627 = #6625 #6626
[mk-app] #6628 pattern #6625
[mk-quant] #6629 internal_u_tokenizer!text.end_trimmed._fuel_to_zero_definition 2 #6628 #6627
[attach-var-names] #6629 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #6630 u_tokenizer!text.rec%end_trimmed.? #32 #6593
[mk-app] #6631 > #6595 #334
[mk-app] #6632 u_tokenizer!text.is_blank.? #6599
[mk-app] #6633 and #6631 #6632
[mk-app] #6634 u_tokenizer!text.rec%end_trimmed.? #6597 #6585
[mk-app] #6635 %Poly%vstd!seq.Seq<char.>. #32
[mk-app] #6636 if #6633 #6634 #6635
[mk-app] #6637 = #6630 #6636
[mk-app] #6638 => #6592 #6637
[mk-app] #6639 pattern #6630
[mk-quant] #6640 internal_u_tokenizer!text.end_trimmed._fuel_to_body_definition 2 #6639 #6638
[attach-var-names] #6640 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #6641 <= #6595 #334
[mk-app] #6642 not #6641
[inst-discovered] theory-solving 0x0 arith# ; #6631
[mk-app] #6643 = #6631 #6642
[instance] 0x0 #6643
[attach-enode] #6643 0
[end-of-instance]
[mk-app] #6643 and #6642 #6632
[mk-app] #6644 if #6643 #6634 #6635
[mk-app] #6645 = #6630 #6644
[mk-app] #6646 or #6607 #6645
[mk-app] #6647 => #6592 #6645
[inst-discovered] theory-solving 0x0 basic# ; #6647
[mk-app] #6648 = #6647 #6646
[instance] 0x0 #6648
[attach-enode] #6648 0
[end-of-instance]
[mk-quant] #6647 internal_u_tokenizer!text.end_trimmed._fuel_to_body_definition 2 #6639 #6646
[attach-var-names] #6647 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #6648 fuel_bool #925
[mk-app] #6649 u_tokenizer!text.end_trimmed.? #33
[mk-app] #6650 fuel_nat%u_tokenizer!text.end_trimmed.
[mk-app] #6651 succ #6650
[mk-app] #6652 u_tokenizer!text.rec%end_trimmed.? #33 #6651
[mk-app] #6653 = #6649 #6652
[mk-app] #6654 => #1464 #6653
[mk-app] #6655 pattern #6649
[mk-quant] #6656 internal_u_tokenizer!text.end_trimmed.?_definition 1 #6655 #6654
[attach-var-names] #6656 (|s!| ; |Poly|)
[mk-app] #6657 => #6648 #6656
[mk-app] #6658 or #1471 #6653
[inst-discovered] theory-solving 0x0 basic# ; #6654
[mk-app] #6659 = #6654 #6658
[instance] 0x0 #6659
[attach-enode] #6659 0
[end-of-instance]
[mk-quant] #6659 internal_u_tokenizer!text.end_trimmed.?_definition 1 #6655 #6658
[attach-var-names] #6659 (|s!| ; |Poly|)
[mk-app] #6660 not #6648
[mk-app] #6661 or #6660 #6659
[mk-app] #6662 => #6648 #6659
[inst-discovered] theory-solving 0x0 basic# ; #6662
[mk-app] #6663 = #6662 #6661
[instance] 0x0 #6663
[attach-enode] #6663 0
[end-of-instance]
[mk-app] #6662 fuel_bool_default #926
[mk-app] #6663 u_tokenizer!text.rec%start_trimmed.? #32 #6585
[mk-app] #6664 u_tokenizer!text.rec%start_trimmed.? #32 #6587
[mk-app] #6665 = #6663 #6664
[mk-app] #6666 pattern #6663
[mk-quant] #6667 internal_u_tokenizer!text.start_trimmed._fuel_to_zero_definition 2 #6666 #6665
[attach-var-names] #6667 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #6668 u_tokenizer!text.rec%start_trimmed.? #32 #6593
[mk-app] #6669 vstd!seq.Seq.index.? #120 #244 #32 #5644
[mk-app] #6670 u_tokenizer!text.is_blank.? #6669
[mk-app] #6671 and #6631 #6670
[mk-app] #6672 I #6595
[mk-app] #6673 vstd!seq.Seq.subrange.? #120 #244 #32 #5102 #6672
[mk-app] #6674 u_tokenizer!text.rec%start_trimmed.? #6673 #6585
[mk-app] #6675 if #6671 #6674 #6635
[mk-app] #6676 = #6668 #6675
[mk-app] #6677 => #6592 #6676
[mk-app] #6678 pattern #6668
[mk-quant] #6679 internal_u_tokenizer!text.start_trimmed._fuel_to_body_definition 2 #6678 #6677
[attach-var-names] #6679 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[inst-discovered] theory-solving 0x0 arith# ; #6631
[mk-app] #6680 = #6631 #6642
[instance] 0x0 #6680
[attach-enode] #6680 0
[end-of-instance]
[mk-app] #6680 and #6642 #6670
[mk-app] #6681 if #6680 #6674 #6635
[mk-app] #6682 = #6668 #6681
[mk-app] #6683 or #6607 #6682
[mk-app] #6684 => #6592 #6682
[inst-discovered] theory-solving 0x0 basic# ; #6684
[mk-app] #6685 = #6684 #6683
[instance] 0x0 #6685
[attach-enode] #6685 0
[end-of-instance]
[mk-quant] #6684 internal_u_tokenizer!text.start_trimmed._fuel_to_body_definition 2 #6678 #6683
[attach-var-names] #6684 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #6685 fuel_bool #926
[mk-app] #6686 u_tokenizer!text.start_trimmed.? #33
[mk-app] #6687 fuel_nat%u_tokenizer!text.start_trimmed.
[mk-app] #6688 succ #6687
[mk-app] #6689 u_tokenizer!text.rec%start_trimmed.? #33 #6688
[mk-app] #6690 = #6686 #6689
[mk-app] #6691 => #1464 #6690
[mk-app] #6692 pattern #6686
[mk-quant] #6693 internal_u_tokenizer!text.start_trimmed.?_definition 1 #6692 #6691
[attach-var-names] #6693 (|s!| ; |Poly|)
[mk-app] #6694 => #6685 #6693
[mk-app] #6695 or #1471 #6690
[inst-discovered] theory-solving 0x0 basic# ; #6691
[mk-app] #6696 = #6691 #6695
[instance] 0x0 #6696
[attach-enode] #6696 0
[end-of-instance]
[mk-quant] #6696 internal_u_tokenizer!text.start_trimmed.?_definition 1 #6692 #6695
[attach-var-names] #6696 (|s!| ; |Poly|)
[mk-app] #6697 not #6685
[mk-app] #6698 or #6697 #6696
[mk-app] #6699 => #6685 #6696
[inst-discovered] theory-solving 0x0 basic# ; #6699
[mk-app] #6700 = #6699 #6698
[instance] 0x0 #6700
[attach-enode] #6700 0
[end-of-instance]
[mk-app] #6699 ens%u_tokenizer!text.StrShim.trim_. #1249 #263 #32 #33
[mk-app] #6700 %Poly%vstd!seq.Seq<char.>. #4912
[mk-app] #6701 u_tokenizer!text.StrShim.sv.? #1249 #263 #32
[mk-app] #6702 u_tokenizer!text.start_trimmed.? #6701
[mk-app] #6703 Poly%vstd!seq.Seq<char.>. #6702
[mk-app] #6704 u_tokenizer!text.end_trimmed.? #6703
[mk-app] #6705 = #6700 #6704
[mk-app] #6706 and #1684 #6705
[mk-app] #6707 = #6699 #6706
[mk-app] #6708 pattern #6699
[mk-quant] #6709 internal_ens__u_tokenizer!text.StrShim.trim_._definition 4 #6708 #6707
[attach-var-names] #6709 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6710 fuel_bool_default #860
[mk-app] #6711 fuel_bool #860
[mk-app] #6712 vstd!seq.impl&%2.take.? #1249 #263 #32 #33
[mk-app] #6713 vstd!seq.Seq.subrange.? #1249 #263 #32 #5644 #33
[mk-app] #6714 = #6712 #6713
[mk-app] #6715 pattern #6712
[mk-quant] #6716 internal_vstd!seq.impl&__2.take.?_definition 4 #6715 #6714
[attach-var-names] #6716 (|n!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6717 => #6711 #6716
[mk-app] #6718 not #6711
[mk-app] #6719 or #6718 #6716
[inst-discovered] theory-solving 0x0 basic# ; #6717
[mk-app] #6720 = #6717 #6719
[instance] 0x0 #6720
[attach-enode] #6720 0
[end-of-instance]
[mk-app] #6720 has_type #6712 #3156
[mk-app] #6721 => #3895 #6720
[mk-quant] #6722 internal_vstd!seq.impl&__2.take.?_pre_post_definition 4 #6715 #6721
[attach-var-names] #6722 (|n!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6723 or #3910 #6720
[inst-discovered] theory-solving 0x0 basic# ; #6721
[mk-app] #6724 = #6721 #6723
[instance] 0x0 #6724
[attach-enode] #6724 0
[end-of-instance]
[mk-quant] #6724 internal_vstd!seq.impl&__2.take.?_pre_post_definition 4 #6715 #6723
[attach-var-names] #6724 (|n!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6725 fuel_bool_default #920
[mk-app] #6726 fuel_bool #920
[mk-app] #6727 u_tokenizer!text.bpos.? #32 #33
[mk-app] #6728 vstd!seq.Seq.subrange.? #120 #244 #32 #5644 #33
[mk-app] #6729 u_tokenizer!text.blen.? #6728
[mk-app] #6730 = #6727 #6729
[mk-app] #6731 pattern #6727
[mk-quant] #6732 internal_u_tokenizer!text.bpos.?_definition 2 #6731 #6730
[attach-var-names] #6732 (|i!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #6733 => #6726 #6732
[mk-app] #6734 not #6726
[mk-app] #6735 or #6734 #6732
[inst-discovered] theory-solving 0x0 basic# ; #6733
[mk-app] #6736 = #6733 #6735
[instance] 0x0 #6736
[attach-enode] #6736 0
[end-of-instance]
[mk-app] #6736 ens%u_tokenizer!text.StrShim.owned_. #1249 #263 #32 #33
[mk-app] #6737 vstd!view.View.view.? #120 #1341 #33
[mk-app] #6738 = #6737 #6701
[mk-app] #6739 and #1342 #6738
[mk-app] #6740 = #6736 #6739
[mk-app] #6741 pattern #6736
[mk-quant] #6742 internal_ens__u_tokenizer!text.StrShim.owned_._definition 4 #6741 #6740
[attach-var-names] #6742 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6743 ens%u_tokenizer!text.axiom_fits. #1677
[mk-app] #6744 vstd!view.View.view.? #1198 #1683 #1678
[mk-app] #6745 u_tokenizer!text.blen.? #6744
[mk-app] #6746 <= #6745 #5350
[mk-app] #6747 = #6743 #6746
[mk-app] #6748 pattern #6743
[mk-quant] #6749 internal_ens__u_tokenizer!text.axiom_fits._definition 1 #6748 #6747
[attach-var-names] #6749 (|s!| ; |strslice%.|)
[attach-meaning] #363 arith (- 1)
[mk-app] #6750 * #363 #289
[mk-app] #6751 + #5349 #6750
[inst-discovered] theory-solving 0x0 arith# ; #5350
[mk-app] #6752 = #5350 #6751
[instance] 0x0 #6752
[attach-enode] #6752 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6750
[mk-app] #6752 = #6750 #363
[instance] 0x0 #6752
[attach-enode] #6752 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #6752 + #363 #5349
[mk-app] #6753 + #5349 #363
[inst-discovered] theory-solving 0x0 arith# ; #6753
[mk-app] #6754 = #6753 #6752
[instance] 0x0 #6754
[attach-enode] #6754 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[attach-meaning] #363 arith (- 1)
[mk-app] #6753 + #5364 #6745
[attach-meaning] #363 arith (- 1)
[mk-app] #6754 * #363 #6745
[mk-app] #6755 + #5349 #6754
[mk-app] #6753 >= #6755 #289
[mk-app] #6756 <= #6745 #6752
[inst-discovered] theory-solving 0x0 arith# ; #6756
[mk-app] #6757 = #6756 #6753
[instance] 0x0 #6757
[attach-enode] #6757 0
[end-of-instance]
[mk-app] #6756 = #6743 #6753
[mk-quant] #6757 internal_ens__u_tokenizer!text.axiom_fits._definition 1 #6748 #6756
[attach-var-names] #6757 (|s!| ; |strslice%.|)
[mk-app] #6752 ens%u_tokenizer!text.axiom_blank.
[mk-app] #6750 Int
[attach-meaning] #6750 arith 10
[mk-app] #6751 I #6750
[mk-app] #6758 u_tokenizer!text.is_blank.? #6751
[attach-meaning] #280 arith 32
[mk-app] #6759 I #280
[mk-app] #6760 u_tokenizer!text.is_blank.? #6759
[mk-app] #6761 Int
[attach-meaning] #6761 arith 13
[mk-app] #6762 I #6761
[mk-app] #6763 u_tokenizer!text.is_blank.? #6762
[mk-app] #6764 Int
[attach-meaning] #6764 arith 9
[mk-app] #6765 I #6764
[mk-app] #6766 u_tokenizer!text.is_blank.? #6765
[mk-app] #6767 and #6758 #6760 #6763 #6766
[mk-app] #6768 = #6752 #6767
[mk-app] #6769 fuel_bool #924
[attach-meaning] #280 arith 32
[mk-app] #6770 and #6758 #6760
[mk-app] #6771 and #6770 #6763
[mk-app] #6772 and #6771 #6766
[mk-app] #6773 => #6769 #6772
[mk-app] #6774 not #6769
[mk-app] #6775 or #6774 #6767
[mk-app] #6776 => #6769 #6767
[inst-discovered] theory-solving 0x0 basic# ; #6776
[mk-app] #6777 = #6776 #6775
[instance] 0x0 #6777
[attach-enode] #6777 0
[end-of-instance]
[mk-app] #6776 fuel_bool_default #921
[mk-app] #6777 fuel_bool #921
[mk-app] #6778 u_tokenizer!text.is_at.? #43 #32 #33
[mk-app] #6779 vstd!seq.Seq.len.? #120 #244 #43
[mk-app] #6780 <= #186 #6779
[mk-app] #6781 and #510 #6780
[mk-app] #6782 u_tokenizer!text.bpos.? #43 #33
[mk-app] #6783 = #6782 #674
[mk-app] #6784 and #6781 #6783
[mk-app] #6785 = #6778 #6784
[mk-app] #6786 pattern #6778
[mk-quant] #6787 internal_u_tokenizer!text.is_at.?_definition 3 #6786 #6785
[attach-var-names] #6787 (|i!| ; |Poly|) (|n!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #6788 => #6777 #6787
[attach-meaning] #363 arith (- 1)
[mk-app] #6789 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #6789 = #510 #514
[instance] 0x0 #6789
[attach-enode] #6789 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #6789 * #363 #6779
[mk-app] #6790 + #186 #6789
[mk-app] #6791 <= #6790 #334
[inst-discovered] theory-solving 0x0 arith# ; #6780
[mk-app] #6792 = #6780 #6791
[instance] 0x0 #6792
[attach-enode] #6792 0
[end-of-instance]
[mk-app] #6792 and #514 #6791 #6783
[mk-app] #6793 = #6778 #6792
[mk-quant] #6794 internal_u_tokenizer!text.is_at.?_definition 3 #6786 #6793
[attach-var-names] #6794 (|i!| ; |Poly|) (|n!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #6795 not #6777
[mk-app] #6796 or #6795 #6794
[mk-app] #6797 => #6777 #6794
[inst-discovered] theory-solving 0x0 basic# ; #6797
[mk-app] #6798 = #6797 #6796
[instance] 0x0 #6798
[attach-enode] #6798 0
[end-of-instance]
[mk-app] #6797 fuel_bool_default #922
[mk-app] #6798 fuel_bool #922
[mk-app] #6799 u_tokenizer!text.boundary.? #32 #33
[mk-app] #6800 and #185 #6778
[mk-quant] #6801 user_u_tokenizer__text__boundary_0 1 #6786 #6800
[attach-var-names] #6801 (|i$| ; |Poly|)
[mk-app] #6802 = #6799 #6801
[mk-app] #6803 pattern #6799
[mk-quant] #6804 internal_u_tokenizer!text.boundary.?_definition 2 #6803 #6802
[attach-var-names] #6804 (|n!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #6805 => #6798 #6804
[mk-app] #6806 not #6798
[mk-app] #6807 or #6806 #6804
[inst-discovered] theory-solving 0x0 basic# ; #6805
[mk-app] #6808 = #6805 #6807
[instance] 0x0 #6808
[attach-enode] #6808 0
[end-of-instance]
[mk-app] #6808 fuel_bool_default #923
[mk-app] #6809 u_tokenizer!text.is_at.? #4247 #63 #33
[mk-app] #6810 and #6111 #6809
[mk-quant] #6811 user_u_tokenizer__text__ci_0 1 #6786 #6810
[attach-var-names] #6811 (|i$| ; |Poly|)
[mk-app] #6812 %%choose%%0 #1272 #4247 #63 #43 #32
[mk-app] #6813 = #6812 #33
[mk-app] #6814 and #6810 #6813
[mk-quant] #6815 k!10299 1 #6786 #6814
[attach-var-names] #6815 (|i$| ; |Poly|)
[mk-app] #6816 => #6811 #6815
[mk-app] #6817 %%choose%%0 #1229 #63 #43 #32 #33
[mk-app] #6818 pattern #6817
[mk-quant] #6819 k!10301 5 #6818 #6816
[attach-var-names] #6819 (|%%hole%%4| ; |Poly|) (|%%hole%%3| ; |Poly|) (|%%hole%%2| ; |Poly|) (|%%hole%%1| ; |Poly|) (|%%hole%%0| ; |Type|)
[mk-app] #6820 and #6111 #6809 #6813
[inst-discovered] theory-solving 0x0 basic# ; #6814
[mk-app] #6821 = #6814 #6820
[instance] 0x0 #6821
[attach-enode] #6821 0
[end-of-instance]
[mk-quant] #6821 k!10299 1 #6786 #6820
[attach-var-names] #6821 (|i$| ; |Poly|)
[mk-app] #6822 not #6811
[mk-app] #6823 or #6822 #6821
[mk-app] #6824 => #6811 #6821
[inst-discovered] theory-solving 0x0 basic# ; #6824
[mk-app] #6825 = #6824 #6823
[instance] 0x0 #6825
[attach-enode] #6825 0
[end-of-instance]
[mk-quant] #6824 k!10301 5 #6818 #6823
[attach-var-names] #6824 (|%%hole%%4| ; |Poly|) (|%%hole%%3| ; |Poly|) (|%%hole%%2| ; |Poly|) (|%%hole%%1| ; |Poly|) (|%%hole%%0| ; |Type|)
[mk-app] #6825 fuel_bool #923
[mk-app] #6826 u_tokenizer!text.ci.? #32 #33
[mk-app] #6827 %%choose%%0 #184 #32 #33 #32 #33
[mk-app] #6828 as_type #6827 #184
[mk-app] #6829 %I #6828
[mk-app] #6830 = #6826 #6829
[mk-app] #6831 pattern #6826
[mk-quant] #6832 internal_u_tokenizer!text.ci.?_definition 2 #6831 #6830
[attach-var-names] #6832 (|n!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #6833 => #6825 #6832
[mk-app] #6834 not #6825
[mk-app] #6835 or #6834 #6832
[inst-discovered] theory-solving 0x0 basic# ; #6833
[mk-app] #6836 = #6833 #6835
[instance] 0x0 #6836
[attach-enode] #6836 0
[end-of-instance]
[mk-app] #6836 req%u_tokenizer!textfn.slice. #1216 #1217 #43 #219 #122
[mk-app] #6837 %%global_location_label%%13
[mk-app] #6838 u_tokenizer!text.StrShim.sv.? #1216 #1217 #43
[mk-app] #6839 u_tokenizer!text.boundary.? #6838 #769
[mk-app] #6840 => #6837 #6839
[mk-app] #6841 %%global_location_label%%14
[mk-app] #6842 u_tokenizer!text.boundary.? #6838 #165
[mk-app] #6843 => #6841 #6842
[mk-app] #6844 %%global_location_label%%15
[mk-app] #6845 <= #219 #122
[mk-app] #6846 => #6844 #6845
[mk-app] #6847 and #6840 #6843 #6846
[mk-app] #6848 = #6836 #6847
[mk-app] #6849 pattern #6836
[mk-quant] #6850 internal_req__u_tokenizer!textfn.slice._definition 5 #6849 #6848
[attach-var-names] #6850 (|b!| ; |Int|) (|a!| ; |Int|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6851 not #6837
[mk-app] #6852 or #6851 #6839
[inst-discovered] theory-solving 0x0 basic# ; #6840
[mk-app] #6853 = #6840 #6852
[instance] 0x0 #6853
[attach-enode] #6853 0
[end-of-instance]
[mk-app] #6853 not #6841
[mk-app] #6854 or #6853 #6842
[inst-discovered] theory-solving 0x0 basic# ; #6843
[mk-app] #6855 = #6843 #6854
[instance] 0x0 #6855
[attach-enode] #6855 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #6855 * #363 #122
[mk-app] #6856 + #6855 #219
[attach-meaning] #363 arith (- 1)
[mk-app] #6855 >= #780 #334
[inst-discovered] theory-solving 0x0 arith# ; #6845
[mk-app] #6856 = #6845 #6855
[instance] 0x0 #6856
[attach-enode] #6856 0
[end-of-instance]
[mk-app] #6856 not #6844
[mk-app] #6857 or #6856 #6855
[mk-app] #6858 => #6844 #6855
[inst-discovered] theory-solving 0x0 basic# ; #6858
[mk-app] #6859 = #6858 #6857
[instance] 0x0 #6859
[attach-enode] #6859 0
[end-of-instance]
[mk-app] #6858 and #6852 #6854 #6857
[mk-app] #6859 = #6836 #6858
[mk-quant] #6860 internal_req__u_tokenizer!textfn.slice._definition 5 #6849 #6859
[attach-var-names] #6860 (|b!| ; |Int|) (|a!| ; |Int|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6861 ens%u_tokenizer!textfn.slice. #1248 #1229 #63 #2055 #219 #1677
[mk-app] #6862 u_tokenizer!text.StrShim.sv.? #1248 #1229 #63
[mk-app] #6863 I #2055
[mk-app] #6864 u_tokenizer!text.ci.? #6862 #6863
[mk-app] #6865 I #6864
[mk-app] #6866 u_tokenizer!text.ci.? #6862 #769
[mk-app] #6867 I #6866
[mk-app] #6868 vstd!seq.Seq.subrange.? #120 #244 #6862 #6865 #6867
[mk-app] #6869 = #6744 #6868
[mk-app] #6870 = #6861 #6869
[mk-app] #6871 pattern #6861
[mk-quant] #6872 internal_ens__u_tokenizer!textfn.slice._definition 6 #6871 #6870
[attach-var-names] #6872 (|r!| ; |strslice%.|) (|b!| ; |Int|) (|a!| ; |Int|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #6873 1
[mk-app] #6874 ens%u_tokenizer!textfn.flit. #6873 #1335
[mk-app] #6875 Poly%strslice%. #6873
[mk-app] #6876 vstd!view.View.view.? #1198 #1683 #6875
[mk-app] #6877 = #6464 #6876
[mk-app] #6878 = #6874 #6877
[mk-app] #6879 pattern #6874
[mk-quant] #6880 internal_ens__u_tokenizer!textfn.flit._definition 2 #6879 #6878
[attach-var-names] #6880 (|r!| ; |alloc!string.String.|) (|s!| ; |strslice%.|)
[mk-app] #6881 ens%u_tokenizer!textfn.fshow. #1249 #263 #32 #1335
[mk-app] #6882 u_tokenizer!text.Show.shown.? #1249 #263 #32
[mk-app] #6883 = #6464 #6882
[mk-app] #6884 = #6881 #6883
[mk-app] #6885 pattern #6881
[mk-quant] #6886 internal_ens__u_tokenizer!textfn.fshow._definition 4 #6885 #6884
[attach-var-names] #6886 (|r!| ; |alloc!string.String.|) (|t!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #6887 2
[mk-var] #6888 1
[mk-app] #6889 ens%u_tokenizer!textfn.fcat. #6887 #6888 #1335
[mk-app] #6890 Poly%alloc!string.String. #6887
[mk-app] #6891 vstd!view.View.view.? #120 #1341 #6890
[mk-app] #6892 Poly%alloc!string.String. #6888
[mk-app] #6893 vstd!view.View.view.? #120 #1341 #6892
[mk-app] #6894 vstd!seq.Seq.add.? #120 #244 #6891 #6893
[mk-app] #6895 = #6464 #6894
[mk-app] #6896 = #6889 #6895
[mk-app] #6897 pattern #6889
[mk-quant] #6898 internal_ens__u_tokenizer!textfn.fcat._definition 3 #6897 #6896
[attach-var-names] #6898 (|r!| ; |alloc!string.String.|) (|b!| ; |alloc!string.String.|) (|a!| ; |alloc!string.String.|)
[mk-app] #6899 fuel_bool_default #880
[mk-app] #6900 %%lambda%%2 #1216 #1217 #43 #1231
[mk-app] #6901 %%apply%%0 #6900 #33
[mk-app] #6902 %%apply%%0 #1231 #4121
[mk-app] #6903 = #6901 #6902
[mk-app] #6904 pattern #6901
[mk-quant] #6905 k!10400 5 #6904 #6903
[attach-var-names] #6905 (|i$| ; |Poly|) (|%%hole%%3| ; |%%Function%%|) (|%%hole%%2| ; |Poly|) (|%%hole%%1| ; |Type|) (|%%hole%%0| ; |Dcr|)
[mk-app] #6906 fuel_bool #880
[mk-app] #6907 vstd!seq_lib.impl&%0.map_values.? #1248 #1229 #1249 #263 #32 #33
[mk-app] #6908 vstd!seq.Seq.len.? #1248 #1229 #32
[mk-app] #6909 I #6908
[mk-app] #6910 %%lambda%%2 #1248 #1229 #32 #1220
[mk-app] #6911 mk_fun #6910
[mk-app] #6912 Poly%fun%1. #6911
[mk-app] #6913 vstd!seq.Seq.new.? #1249 #263 #6909 #6912
[mk-app] #6914 = #6907 #6913
[mk-app] #6915 pattern #6907
[mk-quant] #6916 internal_vstd!seq_lib.impl&__0.map_values.?_definition 6 #6915 #6914
[attach-var-names] #6916 (|f!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6917 => #6906 #6916
[mk-app] #6918 not #6906
[mk-app] #6919 or #6918 #6916
[inst-discovered] theory-solving 0x0 basic# ; #6917
[mk-app] #6920 = #6917 #6919
[instance] 0x0 #6920
[attach-enode] #6920 0
[end-of-instance]
[mk-app] #6920 has_type #32 #4203
[mk-app] #6921 has_type #33 #1250
[mk-app] #6922 and #6920 #6921
[mk-app] #6923 has_type #6907 #3156
[mk-app] #6924 => #6922 #6923
[mk-quant] #6925 internal_vstd!seq_lib.impl&__0.map_values.?_pre_post_definition 6 #6915 #6924
[attach-var-names] #6925 (|f!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6926 not #6922
[mk-app] #6927 or #6926 #6923
[inst-discovered] theory-solving 0x0 basic# ; #6924
[mk-app] #6928 = #6924 #6927
[instance] 0x0 #6928
[attach-enode] #6928 0
[end-of-instance]
[mk-quant] #6928 internal_vstd!seq_lib.impl&__0.map_values.?_pre_post_definition 6 #6915 #6927
[attach-var-names] #6928 (|f!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #6929 ens%u_tokenizer!textfn.first. #1249 #263 #32 #1697
[mk-app] #6930 TYPE%core!option.Option. #120 #244
[mk-app] #6931 has_type #1698 #6930
[mk-app] #6932 vstd!seq.Seq.len.? #120 #244 #6701
[mk-app] #6933 > #6932 #334
[mk-app] #6934 vstd!seq.Seq.index.? #120 #244 #6701 #5644
[mk-app] #6935 core!option.Option./Some #6934
[mk-app] #6936 if #6933 #6935 #1714
[mk-app] #6937 = #1697 #6936
[mk-app] #6938 and #6931 #6937
[mk-app] #6939 = #6929 #6938
[mk-app] #6940 pattern #6929
[mk-quant] #6941 internal_ens__u_tokenizer!textfn.first._definition 4 #6940 #6939
[attach-var-names] #6941 (|r!| ; |core!option.Option.|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6942 <= #6932 #334
[mk-app] #6943 not #6942
[inst-discovered] theory-solving 0x0 arith# ; #6933
[mk-app] #6944 = #6933 #6943
[instance] 0x0 #6944
[attach-enode] #6944 0
[end-of-instance]
[mk-app] #6944 if #6942 #1714 #6935
[mk-app] #6945 if #6943 #6935 #1714
[inst-discovered] theory-solving 0x0 datatype# ; #6945
[mk-app] #6946 = #6945 #6944
[instance] 0x0 #6946
[attach-enode] #6946 0
[end-of-instance]
[mk-app] #6945 = #1697 #6944
[mk-app] #6946 and #6931 #6945
[mk-app] #6947 = #6929 #6946
[mk-quant] #6948 internal_ens__u_tokenizer!textfn.first._definition 4 #6940 #6947
[attach-var-names] #6948 (|r!| ; |core!option.Option.|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6943 fuel_bool_default #917
[mk-app] #6949 %%lambda%%3 #64 #65
[mk-app] #6950 %%apply%%0 #6949 #33
[mk-app] #6951 = #6950 #4498
[mk-app] #6952 pattern #6950
[mk-quant] #6953 k!10454 3 #6952 #6951
[attach-var-names] #6953 (|x$| ; |Poly|) (|%%hole%%1| ; |Type|) (|%%hole%%0| ; |Dcr|)
[mk-app] #6954 fuel_bool #917
[mk-app] #6955 u_tokenizer!text.sviews.? #33
[mk-app] #6956 %%lambda%%3 #120 #1341
[mk-app] #6957 mk_fun #6956
[mk-app] #6958 Poly%fun%1. #6957
[mk-app] #6959 vstd!seq_lib.impl&%0.map_values.? #120 #1341 #120 #1463 #33 #6958
[mk-app] #6960 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #6959
[mk-app] #6961 = #6955 #6960
[mk-app] #6962 pattern #6955
[mk-quant] #6963 internal_u_tokenizer!text.sviews.?_definition 1 #6962 #6961
[attach-var-names] #6963 (|v!| ; |Poly|)
[mk-app] #6964 => #6954 #6963
[mk-app] #6965 not #6954
[mk-app] #6966 or #6965 #6963
[inst-discovered] theory-solving 0x0 basic# ; #6964
[mk-app] #6967 = #6964 #6966
[instance] 0x0 #6967
[attach-enode] #6967 0
[end-of-instance]
[mk-app] #6967 u_tokenizer!lst.Length.length_of.? #64 #65 #33
[mk-app] #6968 has_type #6967 #184
[mk-app] #6969 => #68 #6968
[mk-app] #6970 pattern #6967
[mk-quant] #6971 internal_u_tokenizer!lst.Length.length_of.?_pre_post_definition 3 #6970 #6969
[attach-var-names] #6971 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6972 or #1726 #6968
[inst-discovered] theory-solving 0x0 basic# ; #6969
[mk-app] #6973 = #6969 #6972
[instance] 0x0 #6973
[attach-enode] #6973 0
[end-of-instance]
[mk-quant] #6973 internal_u_tokenizer!lst.Length.length_of.?_pre_post_definition 3 #6970 #6972
[attach-var-names] #6973 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6974 ens%u_tokenizer!lst.length. #1249 #263 #32 #122
[mk-app] #6975 u_tokenizer!lst.Length.length_of.? #1249 #263 #32
[mk-app] #6976 %I #6975
[mk-app] #6977 = #122 #6976
[mk-app] #6978 <= #122 #5350
[mk-app] #6979 and #467 #6977 #6978
[mk-app] #6980 = #6974 #6979
[mk-app] #6981 pattern #6974
[mk-quant] #6982 internal_ens__u_tokenizer!lst.length._definition 4 #6981 #6980
[attach-var-names] #6982 (|r!| ; |Int|) (|x!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[attach-meaning] #363 arith (- 1)
[mk-app] #6983 * #363 #289
[mk-app] #6984 + #5349 #6983
[inst-discovered] theory-solving 0x0 arith# ; #5350
[mk-app] #6985 = #5350 #6984
[instance] 0x0 #6985
[attach-enode] #6985 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6983
[mk-app] #6985 = #6983 #363
[instance] 0x0 #6985
[attach-enode] #6985 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #6985 + #363 #5349
[mk-app] #6986 + #5349 #363
[inst-discovered] theory-solving 0x0 arith# ; #6986
[mk-app] #6987 = #6986 #6985
[instance] 0x0 #6987
[attach-enode] #6987 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[attach-meaning] #363 arith (- 1)
[mk-app] #6986 + #122 #5364
[mk-app] #6987 <= #6986 #363
[mk-app] #6988 <= #122 #6985
[inst-discovered] theory-solving 0x0 arith# ; #6988
[mk-app] #6989 = #6988 #6987
[instance] 0x0 #6989
[attach-enode] #6989 0
[end-of-instance]
[mk-app] #6988 and #467 #6977 #6987
[mk-app] #6989 = #6974 #6988
[mk-quant] #6990 internal_ens__u_tokenizer!lst.length._definition 4 #6981 #6989
[attach-var-names] #6990 (|r!| ; |Int|) (|x!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #6985 u_tokenizer!lst.Emptiness.none.? #64 #65 #33
[mk-app] #6983 has_type #6985 #135
[mk-app] #6984 => #68 #6983
[mk-app] #6991 pattern #6985
[mk-quant] #6992 internal_u_tokenizer!lst.Emptiness.none.?_pre_post_definition 3 #6991 #6984
[attach-var-names] #6992 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6993 or #1726 #6983
[inst-discovered] theory-solving 0x0 basic# ; #6984
[mk-app] #6994 = #6984 #6993
[instance] 0x0 #6994
[attach-enode] #6994 0
[end-of-instance]
[mk-quant] #6994 internal_u_tokenizer!lst.Emptiness.none.?_pre_post_definition 3 #6991 #6993
[attach-var-names] #6994 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6995 ens%u_tokenizer!lst.is_empty. #1249 #263 #32 #128
[mk-app] #6996 u_tokenizer!lst.Emptiness.none.? #1249 #263 #32
[mk-app] #6997 %B #6996
[mk-app] #6998 = #128 #6997
[mk-app] #6999 = #6995 #6998
[mk-app] #7000 pattern #6995
[mk-quant] #7001 internal_ens__u_tokenizer!lst.is_empty._definition 4 #7000 #6999
[attach-var-names] #7001 (|r!| ; |Bool|) (|x!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7002 fuel_bool_default #939
[mk-app] #7003 fuel_bool #939
[mk-app] #7004 u_tokenizer!lex.is_symbol.? #33
[mk-app] #7005 Int
[attach-meaning] #7005 arith 58
[mk-app] #7006 = #186 #7005
[mk-app] #7007 Int
[attach-meaning] #7007 arith 46
[mk-app] #7008 = #186 #7007
[mk-app] #7009 or #7006 #7008
[mk-app] #7010 Int
[attach-meaning] #7010 arith 61
[mk-app] #7011 = #186 #7010
[mk-app] #7012 or #7009 #7011
[mk-app] #7013 Int
[attach-meaning] #7013 arith 123
[mk-app] #7014 = #186 #7013
[mk-app] #7015 or #7012 #7014
[mk-app] #7016 Int
[attach-meaning] #7016 arith 91
[mk-app] #7017 = #186 #7016
[mk-app] #7018 or #7015 #7017
[mk-app] #7019 Int
[attach-meaning] #7019 arith 125
[mk-app] #7020 = #186 #7019
[mk-app] #7021 or #7018 #7020
[mk-app] #7022 Int
[attach-meaning] #7022 arith 93
[mk-app] #7023 = #186 #7022
[mk-app] #7024 or #7021 #7023
[mk-app] #7025 = #7004 #7024
[mk-app] #7026 pattern #7004
[mk-quant] #7027 internal_u_tokenizer!lex.is_symbol.?_definition 1 #7026 #7025
[attach-var-names] #7027 (|c!| ; |Poly|)
[mk-app] #7028 => #7003 #7027
[mk-app] #7029 or #7006 #7008 #7011 #7014 #7017 #7020 #7023
[inst-discovered] theory-solving 0x0 basic# ; #7029
[mk-app] #7030 = #7029 #7029
[instance] 0x0 #7030
[attach-enode] #7030 0
[end-of-instance]
[mk-app] #7030 = #7004 #7029
[mk-quant] #7031 internal_u_tokenizer!lex.is_symbol.?_definition 1 #7026 #7030
[attach-var-names] #7031 (|c!| ; |Poly|)
[mk-app] #7032 not #7003
[mk-app] #7033 or #7032 #7031
[mk-app] #7034 => #7003 #7031
[inst-discovered] theory-solving 0x0 basic# ; #7034
[mk-app] #7035 = #7034 #7033
[instance] 0x0 #7035
[attach-enode] #7035 0
[end-of-instance]
[mk-app] #7034 fuel_bool_default #940
[mk-app] #7035 fuel_bool #940
[mk-app] #7036 u_tokenizer!lex.is_digit.? #33
[mk-app] #7037 Int
[attach-meaning] #7037 arith 48
[mk-app] #7038 Int
[attach-meaning] #7038 arith 57
[mk-app] #7039 <= #7037 #186
[mk-app] #7040 <= #186 #7038
[mk-app] #7041 and #7039 #7040
[mk-app] #7042 = #7036 #7041
[mk-app] #7043 pattern #7036
[mk-quant] #7044 internal_u_tokenizer!lex.is_digit.?_definition 1 #7043 #7042
[attach-var-names] #7044 (|c!| ; |Poly|)
[mk-app] #7045 => #7035 #7044
[attach-meaning] #363 arith (- 1)
[mk-app] #7046 * #363 #186
[mk-app] #7047 Int
[attach-meaning] #7047 arith (- 48)
[attach-meaning] #7037 arith 48
[mk-app] #7048 >= #186 #7037
[inst-discovered] theory-solving 0x0 arith# ; #7039
[mk-app] #7046 = #7039 #7048
[instance] 0x0 #7046
[attach-enode] #7046 0
[end-of-instance]
[mk-app] #7046 and #7048 #7040
[mk-app] #7047 = #7036 #7046
[mk-quant] #7049 internal_u_tokenizer!lex.is_digit.?_definition 1 #7043 #7047
[attach-var-names] #7049 (|c!| ; |Poly|)
[mk-app] #7050 not #7035
[mk-app] #7051 or #7050 #7049
[mk-app] #7052 => #7035 #7049
[inst-discovered] theory-solving 0x0 basic# ; #7052
[mk-app] #7053 = #7052 #7051
[instance] 0x0 #7053
[attach-enode] #7053 0
[end-of-instance]
[mk-app] #7052 ens%u_tokenizer!lex.axiom_classes. #122
[mk-app] #7053 u_tokenizer!lex.is_alpha.? #165
[mk-app] #7054 u_tokenizer!lex.is_symbol.? #165
[mk-app] #7055 not #7054
[mk-app] #7056 u_tokenizer!lex.is_digit.? #165
[mk-app] #7057 not #7056
[mk-app] #7058 and #7055 #7057
[mk-app] #7059 Int
[attach-meaning] #7059 arith 39
[mk-app] #7060 = #122 #7059
[mk-app] #7061 not #7060
[mk-app] #7062 and #7058 #7061
[mk-app] #7063 Int
[attach-meaning] #7063 arith 35
[mk-app] #7064 = #122 #7063
[mk-app] #7065 not #7064
[mk-app] #7066 and #7062 #7065
[mk-app] #7067 Int
[attach-meaning] #7067 arith 95
[mk-app] #7068 = #122 #7067
[mk-app] #7069 not #7068
[mk-app] #7070 and #7066 #7069
[mk-app] #7071 Int
[attach-meaning] #7071 arith 36
[mk-app] #7072 = #122 #7071
[mk-app] #7073 not #7072
[mk-app] #7074 and #7070 #7073
[mk-app] #7075 = #122 #6750
[mk-app] #7076 not #7075
[mk-app] #7077 and #7074 #7076
[mk-app] #7078 u_tokenizer!text.is_blank.? #165
[mk-app] #7079 not #7078
[mk-app] #7080 and #7077 #7079
[mk-app] #7081 => #7053 #7080
[mk-app] #7082 u_tokenizer!lex.is_number.? #165
[attach-meaning] #7059 arith 39
[mk-app] #7083 and #7055 #7061
[attach-meaning] #7063 arith 35
[mk-app] #7084 and #7083 #7065
[attach-meaning] #7067 arith 95
[mk-app] #7085 and #7084 #7069
[attach-meaning] #7071 arith 36
[mk-app] #7086 and #7085 #7073
[mk-app] #7087 and #7086 #7076
[mk-app] #7088 and #7087 #7079
[mk-app] #7089 => #7082 #7088
[mk-app] #7090 => #7056 #7082
[mk-app] #7091 and #7081 #7089 #7090
[mk-app] #7092 = #7052 #7091
[mk-app] #7093 pattern #7052
[mk-quant] #7094 internal_ens__u_tokenizer!lex.axiom_classes._definition 1 #7093 #7092
[attach-var-names] #7094 (|c!| ; |Int|)
[mk-app] #7095 and #7055 #7057 #7061 #7065 #7069 #7073 #7076 #7079
[mk-app] #7096 not #7053
[mk-app] #7097 or #7096 #7095
[mk-app] #7098 => #7053 #7095
[inst-discovered] theory-solving 0x0 basic# ; #7098
[mk-app] #7099 = #7098 #7097
[instance] 0x0 #7099
[attach-enode] #7099 0
[end-of-instance]
[mk-app] #7098 and #7055 #7061 #7065 #7069 #7073 #7076 #7079
[mk-app] #7099 not #7082
[mk-app] #7100 or #7099 #7098
[mk-app] #7101 => #7082 #7098
[inst-discovered] theory-solving 0x0 basic# ; #7101
[mk-app] #7102 = #7101 #7100
[instance] 0x0 #7102
[attach-enode] #7102 0
[end-of-instance]
[mk-app] #7101 or #7057 #7082
[inst-discovered] theory-solving 0x0 basic# ; #7090
[mk-app] #7102 = #7090 #7101
[instance] 0x0 #7102
[attach-enode] #7102 0
[end-of-instance]
[mk-app] #7102 and #7097 #7100 #7101
[mk-app] #7103 = #7052 #7102
[mk-quant] #7104 internal_ens__u_tokenizer!lex.axiom_classes._definition 1 #7093 #7103
[attach-var-names] #7104 (|c!| ; |Int|)
[mk-app] #7105 fuel_bool #941
[mk-app] #7106 u_tokenizer!lex.is_alpha.? #33
[mk-app] #7107 not #7004
[mk-app] #7108 not #7036
[mk-app] #7109 and #7107 #7108
[attach-meaning] #7059 arith 39
[mk-app] #7110 = #186 #7059
[mk-app] #7111 not #7110
[mk-app] #7112 and #7109 #7111
[attach-meaning] #7063 arith 35
[mk-app] #7113 = #186 #7063
[mk-app] #7114 not #7113
[mk-app] #7115 and #7112 #7114
[attach-meaning] #7067 arith 95
[mk-app] #7116 = #186 #7067
[mk-app] #7117 not #7116
[mk-app] #7118 and #7115 #7117
[attach-meaning] #7071 arith 36
[mk-app] #7119 = #186 #7071
[mk-app] #7120 not #7119
[mk-app] #7121 and #7118 #7120
[mk-app] #7122 = #186 #6750
[mk-app] #7123 not #7122
[mk-app] #7124 and #7121 #7123
[mk-app] #7125 u_tokenizer!text.is_blank.? #33
[mk-app] #7126 not #7125
[mk-app] #7127 and #7124 #7126
[mk-app] #7128 => #7106 #7127
[mk-app] #7129 u_tokenizer!lex.is_number.? #33
[attach-meaning] #7059 arith 39
[mk-app] #7130 and #7107 #7111
[attach-meaning] #7063 arith 35
[mk-app] #7131 and #7130 #7114
[attach-meaning] #7067 arith 95
[mk-app] #7132 and #7131 #7117
[attach-meaning] #7071 arith 36
[mk-app] #7133 and #7132 #7120
[mk-app] #7134 and #7133 #7123
[mk-app] #7135 and #7134 #7126
[mk-app] #7136 => #7129 #7135
[mk-app] #7137 and #7128 #7136
[mk-app] #7138 => #7036 #7129
[mk-app] #7139 and #7137 #7138
[mk-app] #7140 => #245 #7139
[mk-app] #7141 pattern #7106
[mk-quant] #7142 user_u_tokenizer__lex__axiom_classes_0 1 #7141 #7140
[attach-var-names] #7142 (|c!| ; |Poly|)
[mk-app] #7143 => #7105 #7142
[mk-app] #7144 and #7107 #7108 #7111 #7114 #7117 #7120 #7123 #7126
[mk-app] #7145 not #7106
[mk-app] #7146 or #7145 #7144
[mk-app] #7147 => #7106 #7144
[inst-discovered] theory-solving 0x0 basic# ; #7147
[mk-app] #7148 = #7147 #7146
[instance] 0x0 #7148
[attach-enode] #7148 0
[end-of-instance]
[mk-app] #7147 and #7107 #7111 #7114 #7117 #7120 #7123 #7126
[mk-app] #7148 not #7129
[mk-app] #7149 or #7148 #7147
[mk-app] #7150 => #7129 #7147
[inst-discovered] theory-solving 0x0 basic# ; #7150
[mk-app] #7151 = #7150 #7149
[instance] 0x0 #7151
[attach-enode] #7151 0
[end-of-instance]
[mk-app] #7150 or #7108 #7129
[inst-discovered] theory-solving 0x0 basic# ; #7138
[mk-app] #7151 = #7138 #7150
[instance] 0x0 #7151
[attach-enode] #7151 0
[end-of-instance]
[mk-app] #7151 and #7146 #7149 #7150
[mk-app] #7152 or #249 #7151
[mk-app] #7153 => #245 #7151
[inst-discovered] theory-solving 0x0 basic# ; #7153
[mk-app] #7154 = #7153 #7152
[instance] 0x0 #7154
[attach-enode] #7154 0
[end-of-instance]
[mk-quant] #7153 user_u_tokenizer__lex__axiom_classes_0 1 #7141 #7152
[attach-var-names] #7153 (|c!| ; |Poly|)
[mk-app] #7154 not #7105
[mk-app] #7155 or #7154 #7153
[mk-app] #7156 => #7105 #7153
[inst-discovered] theory-solving 0x0 basic# ; #7156
[mk-app] #7157 = #7156 #7155
[instance] 0x0 #7157
[attach-enode] #7157 0
[end-of-instance]
[mk-app] #7156 ens%u_tokenizer!lex.axiom_visible. #122
[mk-app] #7157 or #7054 #7056
[attach-meaning] #7059 arith 39
[mk-app] #7158 or #7157 #7060
[attach-meaning] #7063 arith 35
[mk-app] #7159 or #7158 #7064
[attach-meaning] #7067 arith 95
[mk-app] #7160 or #7159 #7068
[attach-meaning] #7071 arith 36
[mk-app] #7161 or #7160 #7072
[mk-app] #7162 => #7161 #7079
[mk-app] #7163 = #7156 #7162
[mk-app] #7164 pattern #7156
[mk-quant] #7165 internal_ens__u_tokenizer!lex.axiom_visible._definition 1 #7164 #7163
[attach-var-names] #7165 (|c!| ; |Int|)
[mk-app] #7166 or #7054 #7056 #7060 #7064 #7068 #7072
[inst-discovered] theory-solving 0x0 basic# ; #7166
[mk-app] #7167 = #7166 #7166
[instance] 0x0 #7167
[attach-enode] #7167 0
[end-of-instance]
[mk-app] #7167 not #7166
[mk-app] #7168 or #7167 #7079
[mk-app] #7169 => #7166 #7079
[inst-discovered] theory-solving 0x0 basic# ; #7169
[mk-app] #7170 = #7169 #7168
[instance] 0x0 #7170
[attach-enode] #7170 0
[end-of-instance]
[mk-app] #7169 = #7156 #7168
[mk-quant] #7170 internal_ens__u_tokenizer!lex.axiom_visible._definition 1 #7164 #7169
[attach-var-names] #7170 (|c!| ; |Int|)
[mk-app] #7171 fuel_bool #942
[mk-app] #7172 or #7004 #7036
[attach-meaning] #7059 arith 39
[mk-app] #7173 or #7172 #7110
[attach-meaning] #7063 arith 35
[mk-app] #7174 or #7173 #7113
[attach-meaning] #7067 arith 95
[mk-app] #7175 or #7174 #7116
[attach-meaning] #7071 arith 36
[mk-app] #7176 or #7175 #7119
[mk-app] #7177 => #7176 #7126
[mk-app] #7178 => #245 #7177
[mk-app] #7179 pattern #7125
[mk-quant] #7180 user_u_tokenizer__lex__axiom_visible_0 1 #7179 #7178
[attach-var-names] #7180 (|c!| ; |Poly|)
[mk-app] #7181 => #7171 #7180
[mk-app] #7182 or #7004 #7036 #7110 #7113 #7116 #7119
[inst-discovered] theory-solving 0x0 basic# ; #7182
[mk-app] #7183 = #7182 #7182
[instance] 0x0 #7183
[attach-enode] #7183 0
[end-of-instance]
[mk-app] #7183 not #7182
[mk-app] #7184 or #7183 #7126
[mk-app] #7185 => #7182 #7126
[inst-discovered] theory-solving 0x0 basic# ; #7185
[mk-app] #7186 = #7185 #7184
[instance] 0x0 #7186
[attach-enode] #7186 0
[end-of-instance]
[mk-app] #7185 or #249 #7183 #7126
[mk-app] #7186 => #245 #7184
[inst-discovered] theory-solving 0x0 basic# ; #7186
[mk-app] #7187 = #7186 #7185
[instance] 0x0 #7187
[attach-enode] #7187 0
[end-of-instance]
[mk-quant] #7184 user_u_tokenizer__lex__axiom_visible_0 1 #7179 #7185
[attach-var-names] #7184 (|c!| ; |Poly|)
[mk-app] #7186 not #7171
[mk-app] #7187 or #7186 #7184
[mk-app] #7188 => #7171 #7184
[inst-discovered] theory-solving 0x0 basic# ; #7188
[mk-app] #7189 = #7188 #7187
[instance] 0x0 #7189
[attach-enode] #7189 0
[end-of-instance]
[mk-app] #7188 fuel_bool_default #957
[mk-app] #7189 fuel_bool #957
[mk-app] #7190 u_tokenizer!lex.impl&%1.wf.? #33
[mk-app] #7191 u_tokenizer!lex.impl&%1.at.? #33
[mk-app] #7192 u_tokenizer!lex.impl&%1.text.? #33
[mk-app] #7193 Poly%vstd!seq.Seq<char.>. #7192
[mk-app] #7194 vstd!seq.Seq.len.? #120 #244 #7193
[mk-app] #7195 <= #334 #7191
[mk-app] #7196 <= #7191 #7194
[mk-app] #7197 and #7195 #7196
[mk-app] #7198 u_tokenizer!text.blen.? #7193
[mk-app] #7199 <= #7198 #5350
[mk-app] #7200 and #7197 #7199
[mk-app] #7201 = #7190 #7200
[mk-app] #7202 pattern #7190
[mk-quant] #7203 internal_u_tokenizer!lex.impl&__1.wf.?_definition 1 #7202 #7201
[attach-var-names] #7203 (|self!| ; |Poly|)
[mk-app] #7204 => #7189 #7203
[attach-meaning] #363 arith (- 1)
[mk-app] #7205 * #363 #7191
[mk-app] #7206 >= #7191 #334
[inst-discovered] theory-solving 0x0 arith# ; #7195
[mk-app] #7205 = #7195 #7206
[instance] 0x0 #7205
[attach-enode] #7205 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7205 * #363 #7194
[mk-app] #7207 + #7191 #7205
[mk-app] #7208 <= #7207 #334
[inst-discovered] theory-solving 0x0 arith# ; #7196
[mk-app] #7209 = #7196 #7208
[instance] 0x0 #7209
[attach-enode] #7209 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7209 * #363 #289
[mk-app] #7210 + #5349 #7209
[inst-discovered] theory-solving 0x0 arith# ; #5350
[mk-app] #7211 = #5350 #7210
[instance] 0x0 #7211
[attach-enode] #7211 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7209
[mk-app] #7211 = #7209 #363
[instance] 0x0 #7211
[attach-enode] #7211 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7211 + #363 #5349
[mk-app] #7212 + #5349 #363
[inst-discovered] theory-solving 0x0 arith# ; #7212
[mk-app] #7213 = #7212 #7211
[instance] 0x0 #7213
[attach-enode] #7213 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[attach-meaning] #363 arith (- 1)
[mk-app] #7212 + #5364 #7198
[attach-meaning] #363 arith (- 1)
[mk-app] #7213 * #363 #7198
[mk-app] #7214 + #5349 #7213
[mk-app] #7212 >= #7214 #289
[mk-app] #7215 <= #7198 #7211
[inst-discovered] theory-solving 0x0 arith# ; #7215
[mk-app] #7216 = #7215 #7212
[instance] 0x0 #7216
[attach-enode] #7216 0
[end-of-instance]
[mk-app] #7215 and #7206 #7208 #7212
[mk-app] #7216 = #7190 #7215
[mk-quant] #7217 internal_u_tokenizer!lex.impl&__1.wf.?_definition 1 #7202 #7216
[attach-var-names] #7217 (|self!| ; |Poly|)
[mk-app] #7211 not #7189
[mk-app] #7209 or #7211 #7217
[mk-app] #7210 => #7189 #7217
[inst-discovered] theory-solving 0x0 basic# ; #7210
[mk-app] #7218 = #7210 #7209
[instance] 0x0 #7218
[attach-enode] #7218 0
[end-of-instance]
[mk-app] #7210 req%u_tokenizer!lex.impl&%1.next. #33
[mk-app] #7218 %%global_location_label%%16
[mk-app] #7219 u_tokenizer!lex.impl&%1.wf.? #5909
[mk-app] #7220 => #7218 #7219
[mk-app] #7221 = #7210 #7220
[mk-app] #7222 pattern #7210
[mk-quant] #7223 internal_req__u_tokenizer!lex.impl&__1.next._definition 1 #7222 #7221
[attach-var-names] #7223 (|self!| ; |Poly|)
[mk-app] #7224 not #7218
[mk-app] #7225 or #7224 #7219
[inst-discovered] theory-solving 0x0 basic# ; #7220
[mk-app] #7226 = #7220 #7225
[instance] 0x0 #7226
[attach-enode] #7226 0
[end-of-instance]
[mk-app] #7226 = #7210 #7225
[mk-quant] #7227 internal_req__u_tokenizer!lex.impl&__1.next._definition 1 #7222 #7226
[attach-var-names] #7227 (|self!| ; |Poly|)
[mk-app] #7228 ens%u_tokenizer!lex.impl&%1.next. #32 #1697
[mk-app] #7229 TYPE%tuple%2. #120 #203 #120 #244
[mk-app] #7230 TYPE%core!option.Option. #3840 #7229
[mk-app] #7231 has_type #1698 #7230
[mk-app] #7232 u_tokenizer!lex.impl&%1.wf.? #40
[mk-app] #7233 u_tokenizer!lex.impl&%1.text.? #40
[mk-app] #7234 u_tokenizer!lex.impl&%1.text.? #4443
[mk-app] #7235 = #7233 #7234
[mk-app] #7236 u_tokenizer!lex.impl&%1.at.? #4443
[mk-app] #7237 Poly%vstd!seq.Seq<char.>. #7234
[mk-app] #7238 vstd!seq.Seq.len.? #120 #244 #7237
[mk-app] #7239 < #7236 #7238
[mk-app] #7240 u_tokenizer!lex.impl&%1.at.? #40
[mk-app] #7241 Add #7236 #289
[mk-app] #7242 = #7240 #7241
[mk-app] #7243 and #7242 #1729
[mk-app] #7244 core!option.Option./Some/0 #3840 #7229 #1699
[mk-app] #7245 %Poly%tuple%2. #7244
[mk-app] #7246 tuple%2./tuple%2/0 #7245
[mk-app] #7247 %I #7246
[mk-app] #7248 I #7236
[mk-app] #7249 u_tokenizer!text.bpos.? #7237 #7248
[mk-app] #7250 = #7247 #7249
[mk-app] #7251 and #7243 #7250
[mk-app] #7252 tuple%2./tuple%2/1 #7245
[mk-app] #7253 vstd!seq.Seq.index.? #120 #244 #7237 #7248
[mk-app] #7254 = #7252 #7253
[mk-app] #7255 and #7251 #7254
[mk-app] #7256 => #7239 #7255
[mk-app] #7257 >= #7236 #7238
[mk-app] #7258 = #7240 #7236
[mk-app] #7259 and #5939 #7258
[mk-app] #7260 => #7257 #7259
[mk-app] #7261 and #7231 #7232 #7235 #7256 #7260
[mk-app] #7262 = #7228 #7261
[mk-app] #7263 pattern #7228
[mk-quant] #7264 internal_ens__u_tokenizer!lex.impl&__1.next._definition 2 #7263 #7262
[attach-var-names] #7264 (|r!| ; |core!option.Option.|) (|self!| ; |Poly|)
[mk-app] #7265 <= #7238 #7236
[mk-app] #7266 not #7265
[inst-discovered] theory-solving 0x0 arith# ; #7239
[mk-app] #7267 = #7239 #7266
[instance] 0x0 #7267
[attach-enode] #7267 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7267 * #363 #7236
[mk-app] #7268 + #7267 #7238
[attach-meaning] #363 arith (- 1)
[mk-app] #7269 * #363 #7238
[mk-app] #7270 + #7236 #7269
[mk-app] #7267 >= #7270 #334
[inst-discovered] theory-solving 0x0 arith# ; #7265
[mk-app] #7268 = #7265 #7267
[instance] 0x0 #7268
[attach-enode] #7268 0
[end-of-instance]
[mk-app] #7268 not #7267
[inst-discovered] theory-solving 0x0 datatype# ; #1729
[mk-app] #7271 = #1729 #1736
[instance] 0x0 #7271
[attach-enode] #7271 0
[end-of-instance]
[mk-app] #7271 and #7242 #1736 #7250 #7254
[mk-app] #7272 or #7267 #7271
[mk-app] #7273 => #7268 #7271
[inst-discovered] theory-solving 0x0 basic# ; #7273
[mk-app] #7274 = #7273 #7272
[instance] 0x0 #7274
[attach-enode] #7274 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7257
[mk-app] #7273 = #7257 #7267
[instance] 0x0 #7273
[attach-enode] #7273 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #5939
[mk-app] #7273 = #5939 #5988
[instance] 0x0 #7273
[attach-enode] #7273 0
[end-of-instance]
[mk-app] #7273 and #5988 #7258
[mk-app] #7274 or #7268 #7273
[mk-app] #7275 => #7267 #7273
[inst-discovered] theory-solving 0x0 basic# ; #7275
[mk-app] #7276 = #7275 #7274
[instance] 0x0 #7276
[attach-enode] #7276 0
[end-of-instance]
[mk-app] #7275 and #7231 #7232 #7235 #7272 #7274
[mk-app] #7276 = #7228 #7275
[mk-quant] #7277 internal_ens__u_tokenizer!lex.impl&__1.next._definition 2 #7263 #7276
[attach-var-names] #7277 (|r!| ; |core!option.Option.|) (|self!| ; |Poly|)
[mk-app] #7265 req%u_tokenizer!lex.impl&%1.peek. #1617
[mk-app] #7266 %%global_location_label%%17
[mk-app] #7278 u_tokenizer!lex.impl&%1.wf.? #1618
[mk-app] #7279 => #7266 #7278
[mk-app] #7280 = #7265 #7279
[mk-app] #7281 pattern #7265
[mk-quant] #7282 internal_req__u_tokenizer!lex.impl&__1.peek._definition 1 #7281 #7280
[attach-var-names] #7282 (|self!| ; |u_tokenizer!lex.CIter.|)
[mk-app] #7283 not #7266
[mk-app] #7284 or #7283 #7278
[inst-discovered] theory-solving 0x0 basic# ; #7279
[mk-app] #7285 = #7279 #7284
[instance] 0x0 #7285
[attach-enode] #7285 0
[end-of-instance]
[mk-app] #7285 = #7265 #7284
[mk-quant] #7286 internal_req__u_tokenizer!lex.impl&__1.peek._definition 1 #7281 #7285
[attach-var-names] #7286 (|self!| ; |u_tokenizer!lex.CIter.|)
[mk-var] #7287 1
[mk-app] #7288 ens%u_tokenizer!lex.impl&%1.peek. #7287 #1697
[mk-app] #7289 REF #3840
[mk-app] #7290 TYPE%core!option.Option. #7289 #7229
[mk-app] #7291 has_type #1698 #7290
[mk-app] #7292 Poly%u_tokenizer!lex.CIter. #7287
[mk-app] #7293 u_tokenizer!lex.impl&%1.at.? #7292
[mk-app] #7294 u_tokenizer!lex.impl&%1.text.? #7292
[mk-app] #7295 Poly%vstd!seq.Seq<char.>. #7294
[mk-app] #7296 vstd!seq.Seq.len.? #120 #244 #7295
[mk-app] #7297 < #7293 #7296
[mk-app] #7298 core!option.Option./Some/0 #7289 #7229 #1699
[mk-app] #7299 %Poly%tuple%2. #7298
[mk-app] #7300 tuple%2./tuple%2/0 #7299
[mk-app] #7301 %I #7300
[mk-app] #7302 I #7293
[mk-app] #7303 u_tokenizer!text.bpos.? #7295 #7302
[mk-app] #7304 = #7301 #7303
[mk-app] #7305 and #1729 #7304
[mk-app] #7306 tuple%2./tuple%2/1 #7299
[mk-app] #7307 vstd!seq.Seq.index.? #120 #244 #7295 #7302
[mk-app] #7308 = #7306 #7307
[mk-app] #7309 and #7305 #7308
[mk-app] #7310 => #7297 #7309
[mk-app] #7311 >= #7293 #7296
[mk-app] #7312 => #7311 #5939
[mk-app] #7313 and #7291 #7310 #7312
[mk-app] #7314 = #7288 #7313
[mk-app] #7315 pattern #7288
[mk-quant] #7316 internal_ens__u_tokenizer!lex.impl&__1.peek._definition 2 #7315 #7314
[attach-var-names] #7316 (|r!| ; |core!option.Option.|) (|self!| ; |u_tokenizer!lex.CIter.|)
[mk-app] #7317 <= #7296 #7293
[mk-app] #7318 not #7317
[inst-discovered] theory-solving 0x0 arith# ; #7297
[mk-app] #7319 = #7297 #7318
[instance] 0x0 #7319
[attach-enode] #7319 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7319 * #363 #7293
[mk-app] #7320 + #7319 #7296
[attach-meaning] #363 arith (- 1)
[mk-app] #7321 * #363 #7296
[mk-app] #7322 + #7293 #7321
[mk-app] #7319 >= #7322 #334
[inst-discovered] theory-solving 0x0 arith# ; #7317
[mk-app] #7320 = #7317 #7319
[instance] 0x0 #7320
[attach-enode] #7320 0
[end-of-instance]
[mk-app] #7320 not #7319
[inst-discovered] theory-solving 0x0 datatype# ; #1729
[mk-app] #7323 = #1729 #1736
[instance] 0x0 #7323
[attach-enode] #7323 0
[end-of-instance]
[mk-app] #7323 and #1736 #7304 #7308
[mk-app] #7324 or #7319 #7323
[mk-app] #7325 => #7320 #7323
[inst-discovered] theory-solving 0x0 basic# ; #7325
[mk-app] #7326 = #7325 #7324
[instance] 0x0 #7326
[attach-enode] #7326 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7311
[mk-app] #7325 = #7311 #7319
[instance] 0x0 #7325
[attach-enode] #7325 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #5939
[mk-app] #7325 = #5939 #5988
[instance] 0x0 #7325
[attach-enode] #7325 0
[end-of-instance]
[mk-app] #7325 or #7320 #5988
[mk-app] #7326 => #7319 #5988
[inst-discovered] theory-solving 0x0 basic# ; #7326
[mk-app] #7327 = #7326 #7325
[instance] 0x0 #7327
[attach-enode] #7327 0
[end-of-instance]
[mk-app] #7326 and #7291 #7324 #7325
[mk-app] #7327 = #7288 #7326
[mk-quant] #7328 internal_ens__u_tokenizer!lex.impl&__1.peek._definition 2 #7315 #7327
[attach-var-names] #7328 (|r!| ; |core!option.Option.|) (|self!| ; |u_tokenizer!lex.CIter.|)
[mk-app] #7317 ens%u_tokenizer!lex.char_indices. #1249 #263 #32 #1617
[mk-app] #7318 u_tokenizer!lex.impl&%1.text.? #1618
[mk-app] #7329 %Poly%vstd!seq.Seq<char.>. #6701
[mk-app] #7330 = #7318 #7329
[mk-app] #7331 u_tokenizer!lex.impl&%1.at.? #1618
[mk-app] #7332 = #7331 #334
[mk-app] #7333 and #7278 #7330 #7332
[mk-app] #7334 = #7317 #7333
[mk-app] #7335 pattern #7317
[mk-quant] #7336 internal_ens__u_tokenizer!lex.char_indices._definition 4 #7335 #7334
[attach-var-names] #7336 (|r!| ; |u_tokenizer!lex.CIter.|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7337 u_tokenizer!lex.ClassShim.it.? #64 #65 #33
[mk-app] #7338 has_type #7337 #244
[mk-app] #7339 => #68 #7338
[mk-app] #7340 pattern #7337
[mk-quant] #7341 internal_u_tokenizer!lex.ClassShim.it.?_pre_post_definition 3 #7340 #7339
[attach-var-names] #7341 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7342 or #1726 #7338
[inst-discovered] theory-solving 0x0 basic# ; #7339
[mk-app] #7343 = #7339 #7342
[instance] 0x0 #7343
[attach-enode] #7343 0
[end-of-instance]
[mk-quant] #7343 internal_u_tokenizer!lex.ClassShim.it.?_pre_post_definition 3 #7340 #7342
[attach-var-names] #7343 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7344 ens%u_tokenizer!lex.ClassShim.alphabetic_. #1249 #263 #32 #33
[mk-app] #7345 u_tokenizer!lex.ClassShim.it.? #1249 #263 #32
[mk-app] #7346 u_tokenizer!lex.is_alpha.? #7345
[mk-app] #7347 = #175 #7346
[mk-app] #7348 and #174 #7347
[mk-app] #7349 = #7344 #7348
[mk-app] #7350 pattern #7344
[mk-quant] #7351 internal_ens__u_tokenizer!lex.ClassShim.alphabetic_._definition 4 #7350 #7349
[attach-var-names] #7351 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7352 fuel_bool_default #938
[mk-app] #7353 fuel_bool #938
[mk-app] #7354 u_tokenizer!lex.is_alnum.? #33
[mk-app] #7355 or #7106 #7129
[mk-app] #7356 = #7354 #7355
[mk-app] #7357 pattern #7354
[mk-quant] #7358 internal_u_tokenizer!lex.is_alnum.?_definition 1 #7357 #7356
[attach-var-names] #7358 (|c!| ; |Poly|)
[mk-app] #7359 => #7353 #7358
[mk-app] #7360 not #7353
[mk-app] #7361 or #7360 #7358
[inst-discovered] theory-solving 0x0 basic# ; #7359
[mk-app] #7362 = #7359 #7361
[instance] 0x0 #7362
[attach-enode] #7362 0
[end-of-instance]
[mk-app] #7362 ens%u_tokenizer!lex.ClassShim.alphanumeric_. #1249 #263 #32 #33
[mk-app] #7363 u_tokenizer!lex.is_alnum.? #7345
[mk-app] #7364 = #175 #7363
[mk-app] #7365 and #174 #7364
[mk-app] #7366 = #7362 #7365
[mk-app] #7367 pattern #7362
[mk-quant] #7368 internal_ens__u_tokenizer!lex.ClassShim.alphanumeric_._definition 4 #7367 #7366
[attach-var-names] #7368 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7369 ens%u_tokenizer!lex.ClassShim.numeric_. #1249 #263 #32 #33
[mk-app] #7370 u_tokenizer!lex.is_number.? #7345
[mk-app] #7371 = #175 #7370
[mk-app] #7372 and #174 #7371
[mk-app] #7373 = #7369 #7372
[mk-app] #7374 pattern #7369
[mk-quant] #7375 internal_ens__u_tokenizer!lex.ClassShim.numeric_._definition 4 #7374 #7373
[attach-var-names] #7375 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7376 ens%u_tokenizer!lex.ClassShim.ascii_digit_. #1249 #263 #32 #33
[mk-app] #7377 u_tokenizer!lex.is_digit.? #7345
[mk-app] #7378 = #175 #7377
[mk-app] #7379 and #174 #7378
[mk-app] #7380 = #7376 #7379
[mk-app] #7381 pattern #7376
[mk-quant] #7382 internal_ens__u_tokenizer!lex.ClassShim.ascii_digit_._definition 4 #7381 #7380
[attach-var-names] #7382 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7383 ens%u_tokenizer!lex.ClassShim.whitespace_. #1249 #263 #32 #33
[mk-app] #7384 u_tokenizer!text.is_blank.? #7345
[mk-app] #7385 = #175 #7384
[mk-app] #7386 and #174 #7385
[mk-app] #7387 = #7383 #7386
[mk-app] #7388 pattern #7383
[mk-quant] #7389 internal_ens__u_tokenizer!lex.ClassShim.whitespace_._definition 4 #7388 #7387
[attach-var-names] #7389 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7390 fuel_bool_default #949
[mk-app] #7391 u_tokenizer!lex.rec%value.? #32 #6585
[mk-app] #7392 u_tokenizer!lex.rec%value.? #32 #6587
[mk-app] #7393 = #7391 #7392
[mk-app] #7394 pattern #7391
[mk-quant] #7395 internal_u_tokenizer!lex.value._fuel_to_zero_definition 2 #7394 #7393
[attach-var-names] #7395 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #7396 u_tokenizer!lex.rec%value.? #32 #6593
[mk-app] #7397 u_tokenizer!lex.rec%value.? #6597 #6585
[mk-app] #7398 Mul #7397 #6750
[attach-meaning] #280 arith 32
[mk-app] #7399 %I #6599
[mk-app] #7400 uClip #280 #7399
[attach-meaning] #280 arith 32
[attach-meaning] #7037 arith 48
[mk-app] #7401 uClip #280 #7037
[mk-app] #7402 Sub #7400 #7401
[mk-app] #7403 Add #7398 #7402
[mk-app] #7404 if #6596 #334 #7403
[mk-app] #7405 = #7396 #7404
[mk-app] #7406 => #6592 #7405
[mk-app] #7407 pattern #7396
[mk-quant] #7408 internal_u_tokenizer!lex.value._fuel_to_body_definition 2 #7407 #7406
[attach-var-names] #7408 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #7409 or #6607 #7405
[inst-discovered] theory-solving 0x0 basic# ; #7406
[mk-app] #7410 = #7406 #7409
[instance] 0x0 #7410
[attach-enode] #7410 0
[end-of-instance]
[mk-quant] #7410 internal_u_tokenizer!lex.value._fuel_to_body_definition 2 #7407 #7409
[attach-var-names] #7410 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #7411 fuel_bool #949
[mk-app] #7412 u_tokenizer!lex.value.? #33
[mk-app] #7413 fuel_nat%u_tokenizer!lex.value.
[mk-app] #7414 succ #7413
[mk-app] #7415 u_tokenizer!lex.rec%value.? #33 #7414
[mk-app] #7416 = #7412 #7415
[mk-app] #7417 => #1464 #7416
[mk-app] #7418 pattern #7412
[mk-quant] #7419 internal_u_tokenizer!lex.value.?_definition 1 #7418 #7417
[attach-var-names] #7419 (|s!| ; |Poly|)
[mk-app] #7420 => #7411 #7419
[mk-app] #7421 or #1471 #7416
[inst-discovered] theory-solving 0x0 basic# ; #7417
[mk-app] #7422 = #7417 #7421
[instance] 0x0 #7422
[attach-enode] #7422 0
[end-of-instance]
[mk-quant] #7422 internal_u_tokenizer!lex.value.?_definition 1 #7418 #7421
[attach-var-names] #7422 (|s!| ; |Poly|)
[mk-app] #7423 not #7411
[mk-app] #7424 or #7423 #7422
[mk-app] #7425 => #7411 #7422
[inst-discovered] theory-solving 0x0 basic# ; #7425
[mk-app] #7426 = #7425 #7424
[instance] 0x0 #7426
[attach-enode] #7426 0
[end-of-instance]
[mk-app] #7425 req%u_tokenizer!lex.parse_usize. #64 #65 #33
[mk-app] #7426 %%global_location_label%%18
[mk-app] #7427 vstd!seq.Seq.len.? #120 #244 #6494
[mk-app] #7428 > #7427 #334
[mk-app] #7429 => #7426 #7428
[mk-app] #7430 %%global_location_label%%19
[mk-app] #7431 < #186 #6932
[mk-app] #7432 and #510 #7431
[mk-app] #7433 vstd!seq.Seq.index.? #120 #244 #6701 #33
[mk-app] #7434 u_tokenizer!lex.is_digit.? #7433
[mk-app] #7435 => #7432 #7434
[mk-app] #7436 => #185 #7435
[mk-app] #7437 pattern #7433
[mk-quant] #7438 user_u_tokenizer__lex__parse_usize_0 1 #7437 #7436
[attach-var-names] #7438 (|i$| ; |Poly|)
[mk-app] #7439 => #7430 #7438
[mk-app] #7440 and #7429 #7439
[mk-app] #7441 = #7425 #7440
[mk-app] #7442 pattern #7425
[mk-quant] #7443 internal_req__u_tokenizer!lex.parse_usize._definition 3 #7442 #7441
[attach-var-names] #7443 (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7444 <= #7427 #334
[mk-app] #7445 not #7444
[inst-discovered] theory-solving 0x0 arith# ; #7428
[mk-app] #7446 = #7428 #7445
[instance] 0x0 #7446
[attach-enode] #7446 0
[end-of-instance]
[mk-app] #7446 not #7426
[mk-app] #7447 or #7446 #7445
[mk-app] #7448 => #7426 #7445
[inst-discovered] theory-solving 0x0 basic# ; #7448
[mk-app] #7449 = #7448 #7447
[instance] 0x0 #7449
[attach-enode] #7449 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7448 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #7448 = #510 #514
[instance] 0x0 #7448
[attach-enode] #7448 0
[end-of-instance]
[mk-app] #7448 <= #6932 #186
[mk-app] #7449 not #7448
[inst-discovered] theory-solving 0x0 arith# ; #7431
[mk-app] #7450 = #7431 #7449
[instance] 0x0 #7450
[attach-enode] #7450 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7450 * #363 #186
[mk-app] #7451 + #7450 #6932
[attach-meaning] #363 arith (- 1)
[mk-app] #7452 * #363 #6932
[mk-app] #7453 + #186 #7452
[mk-app] #7450 >= #7453 #334
[inst-discovered] theory-solving 0x0 arith# ; #7448
[mk-app] #7451 = #7448 #7450
[instance] 0x0 #7451
[attach-enode] #7451 0
[end-of-instance]
[mk-app] #7451 not #7450
[mk-app] #7454 and #514 #7451
[mk-app] #7455 not #7454
[mk-app] #7456 or #7455 #7434
[mk-app] #7457 => #7454 #7434
[inst-discovered] theory-solving 0x0 basic# ; #7457
[mk-app] #7458 = #7457 #7456
[instance] 0x0 #7458
[attach-enode] #7458 0
[end-of-instance]
[mk-app] #7457 or #192 #7455 #7434
[mk-app] #7458 => #185 #7456
[inst-discovered] theory-solving 0x0 basic# ; #7458
[mk-app] #7459 = #7458 #7457
[instance] 0x0 #7459
[attach-enode] #7459 0
[end-of-instance]
[mk-quant] #7456 user_u_tokenizer__lex__parse_usize_0 1 #7437 #7457
[attach-var-names] #7456 (|i$| ; |Poly|)
[mk-app] #7448 not #7430
[mk-app] #7449 or #7448 #7456
[mk-app] #7458 => #7430 #7456
[inst-discovered] theory-solving 0x0 basic# ; #7458
[mk-app] #7459 = #7458 #7449
[instance] 0x0 #7459
[attach-enode] #7459 0
[end-of-instance]
[mk-app] #7458 and #7447 #7449
[mk-app] #7459 = #7425 #7458
[mk-quant] #7460 internal_req__u_tokenizer!lex.parse_usize._definition 3 #7442 #7459
[attach-var-names] #7460 (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7461 ens%u_tokenizer!lex.parse_usize. #1249 #263 #32 #1786
[mk-app] #7462 TYPE%core!result.Result. #120 #203 #120 #2382
[mk-app] #7463 has_type #1787 #7462
[mk-app] #7464 core!result.Result./Ok/0 #120 #203 #120 #2382 #1788
[mk-app] #7465 %I #7464
[mk-app] #7466 u_tokenizer!lex.value.? #6701
[mk-app] #7467 = #7465 #7466
[mk-app] #7468 > #7466 #5254
[mk-app] #7469 if #1813 #7467 #7468
[mk-app] #7470 and #7463 #7469
[mk-app] #7471 = #7461 #7470
[mk-app] #7472 pattern #7461
[mk-quant] #7473 internal_ens__u_tokenizer!lex.parse_usize._definition 4 #7472 #7471
[attach-var-names] #7473 (|r!| ; |core!result.Result.|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #1813
[mk-app] #7474 = #1813 #1820
[instance] 0x0 #7474
[attach-enode] #7474 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7474 * #363 #289
[mk-app] #7475 + #5253 #7474
[inst-discovered] theory-solving 0x0 arith# ; #5254
[mk-app] #7476 = #5254 #7475
[instance] 0x0 #7476
[attach-enode] #7476 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7474
[mk-app] #7476 = #7474 #363
[instance] 0x0 #7476
[attach-enode] #7476 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7476 + #363 #5253
[mk-app] #7477 + #5253 #363
[inst-discovered] theory-solving 0x0 arith# ; #7477
[mk-app] #7478 = #7477 #7476
[instance] 0x0 #7478
[attach-enode] #7478 0
[end-of-instance]
[mk-app] #7477 <= #7466 #7476
[mk-app] #7478 not #7477
[mk-app] #7479 > #7466 #7476
[inst-discovered] theory-solving 0x0 arith# ; #7479
[mk-app] #7480 = #7479 #7478
[instance] 0x0 #7480
[attach-enode] #7480 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[attach-meaning] #363 arith (- 1)
[mk-app] #7479 + #5268 #7466
[attach-meaning] #363 arith (- 1)
[mk-app] #7480 * #363 #7466
[mk-app] #7481 + #5253 #7480
[mk-app] #7479 >= #7481 #289
[inst-discovered] theory-solving 0x0 arith# ; #7477
[mk-app] #7482 = #7477 #7479
[instance] 0x0 #7482
[attach-enode] #7482 0
[end-of-instance]
[mk-app] #7482 not #7479
[mk-app] #7483 if #1820 #7467 #7482
[mk-app] #7484 and #7463 #7483
[mk-app] #7485 = #7461 #7484
[mk-quant] #7486 internal_ens__u_tokenizer!lex.parse_usize._definition 4 #7472 #7485
[attach-var-names] #7486 (|r!| ; |core!result.Result.|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7476 ens%u_tokenizer!lex.starts_with_char. #1216 #1217 #43 #219 #128
[mk-app] #7474 vstd!seq.Seq.len.? #120 #244 #6838
[mk-app] #7475 > #7474 #334
[mk-app] #7477 vstd!seq.Seq.index.? #120 #244 #6838 #5644
[mk-app] #7478 %I #7477
[mk-app] #7487 = #7478 #219
[mk-app] #7488 and #7475 #7487
[mk-app] #7489 = #128 #7488
[mk-app] #7490 = #7476 #7489
[mk-app] #7491 pattern #7476
[mk-quant] #7492 internal_ens__u_tokenizer!lex.starts_with_char._definition 5 #7491 #7490
[attach-var-names] #7492 (|r!| ; |Bool|) (|c!| ; |Int|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7493 <= #7474 #334
[mk-app] #7494 not #7493
[inst-discovered] theory-solving 0x0 arith# ; #7475
[mk-app] #7495 = #7475 #7494
[instance] 0x0 #7495
[attach-enode] #7495 0
[end-of-instance]
[mk-app] #7495 and #7494 #7487
[mk-app] #7496 = #128 #7495
[mk-app] #7497 = #7476 #7496
[mk-quant] #7498 internal_ens__u_tokenizer!lex.starts_with_char._definition 5 #7491 #7497
[attach-var-names] #7498 (|r!| ; |Bool|) (|c!| ; |Int|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7499 ens%u_tokenizer!lex.str_is. #1271 #1272 #1216 #1217 #43 #32 #128
[mk-app] #7500 u_tokenizer!text.StrShim.sv.? #1271 #1272 #43
[mk-app] #7501 u_tokenizer!text.StrShim.sv.? #1216 #1217 #32
[mk-app] #7502 = #7500 #7501
[mk-app] #7503 = #128 #7502
[mk-app] #7504 = #7499 #7503
[mk-app] #7505 pattern #7499
[mk-quant] #7506 internal_ens__u_tokenizer!lex.str_is._definition 7 #7505 #7504
[attach-var-names] #7506 (|r!| ; |Bool|) (|u!| ; |Poly|) (|s!| ; |Poly|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7507 ens%u_tokenizer!lex.impl&%3.new. #1889 #2055 #2310 #1637
[mk-app] #7508 u_tokenizer!lex.impl&%3.at.? #1638
[mk-app] #7509 = #7508 #1889
[mk-app] #7510 = #7507 #7509
[mk-app] #7511 pattern #7507
[mk-quant] #7512 internal_ens__u_tokenizer!lex.impl&__3.new._definition 4 #7511 #7510
[attach-var-names] #7512 (|r!| ; |u_tokenizer!lex.GraphemeCursor.|) (|extended!| ; |Bool|) (|len!| ; |Int|) (|at!| ; |Int|)
[mk-app] #7513 tr_bound%core!fmt.Debug. #120 #1184
[mk-app] #7514 req%vstd!std_specs.result.spec_unwrap. #1216 #1217 #64 #65 #33
[mk-app] #7515 %%global_location_label%%20
[mk-app] #7516 => #7515 #6123
[mk-app] #7517 = #7514 #7516
[mk-app] #7518 pattern #7514
[mk-quant] #7519 internal_req__vstd!std_specs.result.spec_unwrap._definition 5 #7518 #7517
[attach-var-names] #7519 (|result!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #6123
[mk-app] #7520 = #6123 #6128
[instance] 0x0 #7520
[attach-enode] #7520 0
[end-of-instance]
[mk-app] #7520 not #7515
[mk-app] #7521 or #7520 #6128
[mk-app] #7522 => #7515 #6128
[inst-discovered] theory-solving 0x0 basic# ; #7522
[mk-app] #7523 = #7522 #7521
[instance] 0x0 #7523
[attach-enode] #7523 0
[end-of-instance]
[mk-app] #7522 = #7514 #7521
[mk-quant] #7523 internal_req__vstd!std_specs.result.spec_unwrap._definition 5 #7518 #7522
[attach-var-names] #7523 (|result!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7524 fuel_bool_default #834
[mk-app] #7525 fuel_bool #834
[mk-app] #7526 vstd!std_specs.result.spec_unwrap.? #1216 #1217 #64 #65 #33
[mk-app] #7527 = #7526 #1824
[mk-app] #7528 pattern #7526
[mk-quant] #7529 internal_vstd!std_specs.result.spec_unwrap.?_definition 5 #7528 #7527
[attach-var-names] #7529 (|result!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7530 => #7525 #7529
[mk-app] #7531 not #7525
[mk-app] #7532 or #7531 #7529
[inst-discovered] theory-solving 0x0 basic# ; #7530
[mk-app] #7533 = #7530 #7532
[instance] 0x0 #7533
[attach-enode] #7533 0
[end-of-instance]
[mk-app] #7533 has_type #7526 #1217
[mk-app] #7534 => #1793 #7533
[mk-quant] #7535 internal_vstd!std_specs.result.spec_unwrap.?_pre_post_definition 5 #7528 #7534
[attach-var-names] #7535 (|result!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7536 or #1800 #7533
[inst-discovered] theory-solving 0x0 basic# ; #7534
[mk-app] #7537 = #7534 #7536
[instance] 0x0 #7537
[attach-enode] #7537 0
[end-of-instance]
[mk-quant] #7537 internal_vstd!std_specs.result.spec_unwrap.?_pre_post_definition 5 #7528 #7536
[attach-var-names] #7537 (|result!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7538 req%u_tokenizer!lex.impl&%3.next_boundary. #1216 #1217 #43 #32 #122
[mk-app] #7539 %%global_location_label%%21
[mk-app] #7540 => #7539 #750
[mk-app] #7541 %%global_location_label%%22
[mk-app] #7542 u_tokenizer!lex.impl&%3.at.? #48
[mk-app] #7543 I #7542
[mk-app] #7544 u_tokenizer!text.boundary.? #7501 #7543
[mk-app] #7545 => #7541 #7544
[mk-app] #7546 %%global_location_label%%23
[mk-app] #7547 u_tokenizer!text.blen.? #7501
[mk-app] #7548 < #7542 #7547
[mk-app] #7549 => #7546 #7548
[mk-app] #7550 and #7540 #7545 #7549
[mk-app] #7551 = #7538 #7550
[mk-app] #7552 pattern #7538
[mk-quant] #7553 internal_req__u_tokenizer!lex.impl&__3.next_boundary._definition 5 #7552 #7551
[attach-var-names] #7553 (|start!| ; |Int|) (|s!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7554 not #7539
[mk-app] #7555 or #7554 #750
[inst-discovered] theory-solving 0x0 basic# ; #7540
[mk-app] #7556 = #7540 #7555
[instance] 0x0 #7556
[attach-enode] #7556 0
[end-of-instance]
[mk-app] #7556 not #7541
[mk-app] #7557 or #7556 #7544
[inst-discovered] theory-solving 0x0 basic# ; #7545
[mk-app] #7558 = #7545 #7557
[instance] 0x0 #7558
[attach-enode] #7558 0
[end-of-instance]
[mk-app] #7558 <= #7547 #7542
[mk-app] #7559 not #7558
[inst-discovered] theory-solving 0x0 arith# ; #7548
[mk-app] #7560 = #7548 #7559
[instance] 0x0 #7560
[attach-enode] #7560 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7560 * #363 #7542
[mk-app] #7561 + #7560 #7547
[attach-meaning] #363 arith (- 1)
[mk-app] #7562 * #363 #7547
[mk-app] #7563 + #7542 #7562
[mk-app] #7560 >= #7563 #334
[inst-discovered] theory-solving 0x0 arith# ; #7558
[mk-app] #7561 = #7558 #7560
[instance] 0x0 #7561
[attach-enode] #7561 0
[end-of-instance]
[mk-app] #7561 not #7560
[mk-app] #7564 not #7546
[mk-app] #7565 or #7564 #7561
[mk-app] #7566 => #7546 #7561
[inst-discovered] theory-solving 0x0 basic# ; #7566
[mk-app] #7567 = #7566 #7565
[instance] 0x0 #7567
[attach-enode] #7567 0
[end-of-instance]
[mk-app] #7566 and #7555 #7557 #7565
[mk-app] #7567 = #7538 #7566
[mk-quant] #7568 internal_req__u_tokenizer!lex.impl&__3.next_boundary._definition 5 #7552 #7567
[attach-var-names] #7568 (|start!| ; |Int|) (|s!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7558 ens%u_tokenizer!lex.impl&%3.next_boundary. #1248 #1229 #63 #43 #219 #1786
[mk-app] #7559 TYPE%core!option.Option. #120 #203
[mk-app] #7569 TYPE%core!result.Result. #120 #7559 #120 #1184
[mk-app] #7570 has_type #1787 #7569
[mk-app] #7571 core!result.Result./Ok/0 #120 #7559 #120 #1184 #1788
[mk-app] #7572 %Poly%core!option.Option. #7571
[mk-app] #7573 is-core!option.Option./Some #7572
[mk-app] #7574 mut_ref_current% #63
[mk-app] #7575 u_tokenizer!lex.impl&%3.at.? #7574
[mk-app] #7576 core!option.Option./Some/0 #120 #203 #7572
[mk-app] #7577 %I #7576
[mk-app] #7578 u_tokenizer!text.StrShim.sv.? #1248 #1229 #43
[mk-app] #7579 u_tokenizer!text.blen.? #7578
[mk-app] #7580 < #7575 #7577
[mk-app] #7581 <= #7577 #7579
[mk-app] #7582 and #7580 #7581
[mk-app] #7583 u_tokenizer!text.boundary.? #7578 #7576
[mk-app] #7584 and #7570 #1813 #7573 #7582 #7583
[mk-app] #7585 = #7558 #7584
[mk-app] #7586 pattern #7558
[mk-quant] #7587 internal_ens__u_tokenizer!lex.impl&__3.next_boundary._definition 6 #7586 #7585
[attach-var-names] #7587 (|r!| ; |core!result.Result.|) (|start!| ; |Int|) (|s!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 datatype# ; #1813
[mk-app] #7588 = #1813 #1820
[instance] 0x0 #7588
[attach-enode] #7588 0
[end-of-instance]
[mk-app] #7588 is #7572
[inst-discovered] theory-solving 0x0 datatype# ; #7573
[mk-app] #7589 = #7573 #7588
[instance] 0x0 #7589
[attach-enode] #7589 0
[end-of-instance]
[mk-app] #7589 <= #7577 #7575
[mk-app] #7590 not #7589
[inst-discovered] theory-solving 0x0 arith# ; #7580
[mk-app] #7591 = #7580 #7590
[instance] 0x0 #7591
[attach-enode] #7591 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7591 * #363 #7575
[mk-app] #7592 + #7591 #7577
[attach-meaning] #363 arith (- 1)
[mk-app] #7593 * #363 #7577
[mk-app] #7594 + #7575 #7593
[mk-app] #7591 >= #7594 #334
[inst-discovered] theory-solving 0x0 arith# ; #7589
[mk-app] #7592 = #7589 #7591
[instance] 0x0 #7592
[attach-enode] #7592 0
[end-of-instance]
[mk-app] #7592 not #7591
[attach-meaning] #363 arith (- 1)
[mk-app] #7595 * #363 #7579
[mk-app] #7596 + #7577 #7595
[mk-app] #7597 <= #7596 #334
[inst-discovered] theory-solving 0x0 arith# ; #7581
[mk-app] #7598 = #7581 #7597
[instance] 0x0 #7598
[attach-enode] #7598 0
[end-of-instance]
[mk-app] #7598 and #7570 #1820 #7588 #7592 #7597 #7583
[mk-app] #7599 = #7558 #7598
[mk-quant] #7600 internal_ens__u_tokenizer!lex.impl&__3.next_boundary._definition 6 #7586 #7599
[attach-var-names] #7600 (|r!| ; |core!result.Result.|) (|start!| ; |Int|) (|s!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7589 ens%u_tokenizer!lex.path. #1249 #263 #32 #1657
[mk-app] #7590 u_tokenizer!lex.path_text.? #1658
[mk-app] #7601 = #7590 #7329
[mk-app] #7602 = #7589 #7601
[mk-app] #7603 pattern #7589
[mk-quant] #7604 internal_ens__u_tokenizer!lex.path._definition 4 #7603 #7602
[attach-var-names] #7604 (|r!| ; |u_tokenizer!shim.PathBuf.|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #7605 1
[mk-app] #7606 ens%u_tokenizer!lex.impl&%4.owned_. #7605 #1657
[mk-app] #7607 = #1657 #7605
[mk-app] #7608 = #7606 #7607
[mk-app] #7609 pattern #7606
[mk-quant] #7610 internal_ens__u_tokenizer!lex.impl&__4.owned_._definition 2 #7609 #7608
[attach-var-names] #7610 (|r!| ; |u_tokenizer!shim.PathBuf.|) (|self!| ; |u_tokenizer!shim.PathBuf.|)
[mk-app] #7611 ens%u_tokenizer!lex.clear. #33
[mk-app] #7612 vstd!view.View.view.? #120 #1341 #5970
[mk-app] #7613 = #7612 #6465
[mk-app] #7614 = #7611 #7613
[mk-app] #7615 pattern #7611
[mk-quant] #7616 internal_ens__u_tokenizer!lex.clear._definition 1 #7615 #7614
[attach-var-names] #7616 (|s!| ; |Poly|)
[mk-app] #7617 ens%u_tokenizer!lex.push_str. #1249 #263 #32 #33
[mk-app] #7618 vstd!view.View.view.? #120 #1341 #40
[mk-app] #7619 vstd!view.View.view.? #120 #1341 #4443
[mk-app] #7620 u_tokenizer!text.StrShim.sv.? #1249 #263 #33
[mk-app] #7621 vstd!seq.Seq.add.? #120 #244 #7619 #7620
[mk-app] #7622 = #7618 #7621
[mk-app] #7623 = #7617 #7622
[mk-app] #7624 pattern #7617
[mk-quant] #7625 internal_ens__u_tokenizer!lex.push_str._definition 4 #7624 #7623
[attach-var-names] #7625 (|t!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7626 has_type #43 #1272
[mk-app] #7627 and #7626 #4100 #6111
[mk-app] #7628 u_tokenizer!lex.Pushed.pushed.? #1271 #1272 #1216 #1217 #43 #32 #33
[mk-app] #7629 has_type #7628 #135
[mk-app] #7630 => #7627 #7629
[mk-app] #7631 pattern #7628
[mk-quant] #7632 internal_u_tokenizer!lex.Pushed.pushed.?_pre_post_definition 7 #7631 #7630
[attach-var-names] #7632 (|new!| ; |Poly|) (|x!| ; |Poly|) (|old!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7633 not #7627
[mk-app] #7634 or #7633 #7629
[inst-discovered] theory-solving 0x0 basic# ; #7630
[mk-app] #7635 = #7630 #7634
[instance] 0x0 #7635
[attach-enode] #7635 0
[end-of-instance]
[mk-quant] #7635 internal_u_tokenizer!lex.Pushed.pushed.?_pre_post_definition 7 #7631 #7634
[attach-var-names] #7635 (|new!| ; |Poly|) (|x!| ; |Poly|) (|old!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #7636 ens%u_tokenizer!lex.push. #1248 #1229 #1249 #263 #32 #33
[mk-app] #7637 u_tokenizer!lex.Pushed.pushed.? #1249 #263 #1248 #1229 #4443 #33 #40
[mk-app] #7638 %B #7637
[mk-app] #7639 = #7636 #7638
[mk-app] #7640 pattern #7636
[mk-quant] #7641 internal_ens__u_tokenizer!lex.push._definition 6 #7640 #7639
[attach-var-names] #7641 (|x!| ; |Poly|) (|s!| ; |Poly|) (|S&| ; |Type|) (|S&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7642 fuel_bool_default #935
[mk-app] #7643 fuel_bool #935
[mk-app] #7644 u_tokenizer!lst.visible_end.? #63 #43 #32 #33
[mk-app] #7645 <= #664 #186
[mk-app] #7646 < #186 #674
[mk-app] #7647 and #7645 #7646
[mk-app] #7648 vstd!seq.Seq.index.? #120 #244 #63 #33
[mk-app] #7649 u_tokenizer!text.is_blank.? #7648
[mk-app] #7650 not #7649
[mk-app] #7651 and #7647 #7650
[mk-app] #7652 and #3955 #4054
[mk-app] #7653 vstd!seq.Seq.index.? #120 #244 #4247 #33
[mk-app] #7654 %I #7653
[mk-app] #7655 = #7654 #6750
[mk-app] #7656 not #7655
[mk-app] #7657 => #7652 #7656
[mk-app] #7658 => #185 #7657
[mk-app] #7659 pattern #7653
[mk-quant] #7660 user_u_tokenizer__lst__visible_end_0 1 #7659 #7658
[attach-var-names] #7660 (|i$| ; |Poly|)
[mk-app] #7661 and #7651 #7660
[mk-app] #7662 = #7644 #7661
[mk-app] #7663 pattern #7644
[mk-quant] #7664 internal_u_tokenizer!lst.visible_end.?_definition 4 #7663 #7662
[attach-var-names] #7664 (|v!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #7665 => #7643 #7664
[attach-meaning] #363 arith (- 1)
[mk-app] #7666 * #363 #186
[mk-app] #7667 + #7666 #664
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7645
[mk-app] #7666 = #7645 #4067
[instance] 0x0 #7666
[attach-enode] #7666 0
[end-of-instance]
[mk-app] #7666 not #3955
[inst-discovered] theory-solving 0x0 arith# ; #7646
[mk-app] #7667 = #7646 #7666
[instance] 0x0 #7667
[attach-enode] #7667 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7667 * #363 #186
[mk-app] #7668 + #7667 #674
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #3955
[mk-app] #7667 = #3955 #3963
[instance] 0x0 #7667
[attach-enode] #7667 0
[end-of-instance]
[mk-app] #7667 not #3963
[attach-meaning] #363 arith (- 1)
[mk-app] #7668 * #363 #186
[mk-app] #7669 + #7668 #674
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #3955
[mk-app] #7668 = #3955 #3963
[instance] 0x0 #7668
[attach-enode] #7668 0
[end-of-instance]
[mk-app] #7668 not #7645
[inst-discovered] theory-solving 0x0 arith# ; #4054
[mk-app] #7669 = #4054 #7668
[instance] 0x0 #7669
[attach-enode] #7669 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7669 * #363 #186
[mk-app] #7670 + #7669 #664
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7645
[mk-app] #7669 = #7645 #4067
[instance] 0x0 #7669
[attach-enode] #7669 0
[end-of-instance]
[mk-app] #7669 and #3963 #4068
[mk-app] #7670 not #7669
[mk-app] #7671 or #7670 #7656
[mk-app] #7672 => #7669 #7656
[inst-discovered] theory-solving 0x0 basic# ; #7672
[mk-app] #7673 = #7672 #7671
[instance] 0x0 #7673
[attach-enode] #7673 0
[end-of-instance]
[mk-app] #7672 or #192 #7670 #7656
[mk-app] #7673 => #185 #7671
[inst-discovered] theory-solving 0x0 basic# ; #7673
[mk-app] #7674 = #7673 #7672
[instance] 0x0 #7674
[attach-enode] #7674 0
[end-of-instance]
[mk-quant] #7671 user_u_tokenizer__lst__visible_end_0 1 #7659 #7672
[attach-var-names] #7671 (|i$| ; |Poly|)
[mk-app] #7668 and #4067 #7667 #7650 #7671
[mk-app] #7673 = #7644 #7668
[mk-quant] #7674 internal_u_tokenizer!lst.visible_end.?_definition 4 #7663 #7673
[attach-var-names] #7674 (|v!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #7666 not #7643
[mk-app] #7675 or #7666 #7674
[mk-app] #7676 => #7643 #7674
[inst-discovered] theory-solving 0x0 basic# ; #7676
[mk-app] #7677 = #7676 #7675
[instance] 0x0 #7677
[attach-enode] #7677 0
[end-of-instance]
[mk-app] #7676 fuel_bool_default #936
[mk-app] #7677 fuel_bool #936
[mk-app] #7678 u_tokenizer!lst.tokens_span.? #43 #32 #33
[mk-app] #7679 and #3956 #6780
[mk-app] #7680 and #185 #7644
[mk-quant] #7681 user_u_tokenizer__lst__tokens_span_0 1 #7663 #7680
[attach-var-names] #7681 (|v$| ; |Poly|)
[mk-app] #7682 or #264 #7681
[mk-app] #7683 and #7679 #7682
[mk-app] #7684 = #7678 #7683
[mk-app] #7685 pattern #7678
[mk-quant] #7686 internal_u_tokenizer!lst.tokens_span.?_definition 3 #7685 #7684
[attach-var-names] #7686 (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #7687 => #7677 #7686
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #727
[mk-app] #7688 = #727 #736
[instance] 0x0 #7688
[attach-enode] #7688 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7688 * #363 #186
[mk-app] #7689 + #7688 #674
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #3955
[mk-app] #7688 = #3955 #3963
[instance] 0x0 #7688
[attach-enode] #7688 0
[end-of-instance]
[mk-app] #7688 and #736 #3963
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6780
[mk-app] #7689 = #6780 #6791
[instance] 0x0 #7689
[attach-enode] #7689 0
[end-of-instance]
[mk-app] #7689 and #736 #3963 #6791 #7682
[mk-app] #7690 and #7688 #6791 #7682
[inst-discovered] theory-solving 0x0 basic# ; #7690
[mk-app] #7691 = #7690 #7689
[instance] 0x0 #7691
[attach-enode] #7691 0
[end-of-instance]
[mk-app] #7690 = #7678 #7689
[mk-quant] #7691 internal_u_tokenizer!lst.tokens_span.?_definition 3 #7685 #7690
[attach-var-names] #7691 (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #7688 not #7677
[mk-app] #7692 or #7688 #7691
[mk-app] #7693 => #7677 #7691
[inst-discovered] theory-solving 0x0 basic# ; #7693
[mk-app] #7694 = #7693 #7692
[instance] 0x0 #7694
[attach-enode] #7694 0
[end-of-instance]
[mk-app] #7693 fuel_bool_default #937
[mk-app] #7694 fuel_bool #937
[mk-app] #7695 u_tokenizer!lst.range_fine.? #32 #33
[mk-app] #7696 and #3976 #185
[mk-app] #7697 %Poly%u_tokenizer!error.SourceRange. #43
[mk-app] #7698 u_tokenizer!error.SourceRange./SourceRange/start #7697
[mk-app] #7699 I #7698
[mk-app] #7700 u_tokenizer!text.is_at.? #63 #7699 #32
[mk-app] #7701 u_tokenizer!error.SourceRange./SourceRange/end #7697
[mk-app] #7702 I #7701
[mk-app] #7703 u_tokenizer!text.is_at.? #63 #7702 #33
[mk-app] #7704 and #7700 #7703
[mk-app] #7705 u_tokenizer!lst.tokens_span.? #63 #32 #33
[mk-app] #7706 and #7704 #7705
[mk-app] #7707 and #7696 #7706
[mk-app] #7708 pattern #7700 #7703
[mk-quant] #7709 user_u_tokenizer__lst__range_fine_0 2 #7708 #7707
[attach-var-names] #7709 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #7710 = #7695 #7709
[mk-app] #7711 pattern #7695
[mk-quant] #7712 internal_u_tokenizer!lst.range_fine.?_definition 2 #7711 #7710
[attach-var-names] #7712 (|r!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #7713 => #7694 #7712
[mk-app] #7714 and #3976 #185 #7700 #7703 #7705
[mk-quant] #7715 user_u_tokenizer__lst__range_fine_0 2 #7708 #7714
[attach-var-names] #7715 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #7716 = #7695 #7715
[mk-quant] #7717 internal_u_tokenizer!lst.range_fine.?_definition 2 #7711 #7716
[attach-var-names] #7717 (|r!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #7718 not #7694
[mk-app] #7719 or #7718 #7717
[mk-app] #7720 => #7694 #7717
[inst-discovered] theory-solving 0x0 basic# ; #7720
[mk-app] #7721 = #7720 #7719
[instance] 0x0 #7721
[attach-enode] #7721 0
[end-of-instance]
[mk-app] #7720 req%u_tokenizer!error.listing. #6873 #2415
[mk-app] #7721 %%global_location_label%%24
[mk-app] #7722 u_tokenizer!lst.range_fine.? #6876 #2416
[mk-app] #7723 => #7721 #7722
[mk-app] #7724 = #7720 #7723
[mk-app] #7725 pattern #7720
[mk-quant] #7726 internal_req__u_tokenizer!error.listing._definition 2 #7725 #7724
[attach-var-names] #7726 (|source_range!| ; |u_tokenizer!error.SourceRange.|) (|source_contents!| ; |strslice%.|)
[mk-app] #7727 not #7721
[mk-app] #7728 or #7727 #7722
[inst-discovered] theory-solving 0x0 basic# ; #7723
[mk-app] #7729 = #7723 #7728
[instance] 0x0 #7729
[attach-enode] #7729 0
[end-of-instance]
[mk-app] #7729 = #7720 #7728
[mk-quant] #7730 internal_req__u_tokenizer!error.listing._definition 2 #7725 #7729
[attach-var-names] #7730 (|source_range!| ; |u_tokenizer!error.SourceRange.|) (|source_contents!| ; |strslice%.|)
[mk-app] #7731 ens%u_tokenizer!identifier.named. #1249 #263 #32 #1597
[mk-app] #7732 u_tokenizer!identifier.impl&%0.name.? #1598
[mk-app] #7733 = #7732 #7329
[mk-app] #7734 = #7731 #7733
[mk-app] #7735 pattern #7731
[mk-quant] #7736 internal_ens__u_tokenizer!identifier.named._definition 4 #7735 #7734
[attach-var-names] #7736 (|r!| ; |u_tokenizer!identifier.Identifier.|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7737 fuel_bool_default #794
[mk-app] #7738 fuel_bool #794
[mk-app] #7739 tr_bound%core!iter.traits.iterator.Iterator. #64 #65
[mk-app] #7740 and #4513 #7739
[mk-app] #7741 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #120 #66 #33
[mk-app] #7742 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #64 #65 #5909
[mk-app] #7743 = #7741 #7742
[mk-app] #7744 => #7740 #7743
[mk-app] #7745 pattern #7741
[mk-quant] #7746 internal_vstd!std_specs.iter.impl&__2.obeys_prophetic_iter_laws.?_definition 3 #7745 #7744
[attach-var-names] #7746 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #7747 => #7738 #7746
[mk-app] #7748 not #7740
[mk-app] #7749 or #7748 #7743
[inst-discovered] theory-solving 0x0 basic# ; #7744
[mk-app] #7750 = #7744 #7749
[instance] 0x0 #7750
[attach-enode] #7750 0
[end-of-instance]
[mk-quant] #7750 internal_vstd!std_specs.iter.impl&__2.obeys_prophetic_iter_laws.?_definition 3 #7745 #7749
[attach-var-names] #7750 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #7751 not #7738
[mk-app] #7752 or #7751 #7750
[mk-app] #7753 => #7738 #7750
[inst-discovered] theory-solving 0x0 basic# ; #7753
[mk-app] #7754 = #7753 #7752
[instance] 0x0 #7754
[attach-enode] #7754 0
[end-of-instance]
[mk-app] #7753 fuel_bool_default #795
[mk-app] #7754 fuel_bool #795
[mk-app] #7755 vstd!std_specs.iter.IteratorSpec.remaining.? #120 #66 #33
[mk-app] #7756 vstd!std_specs.iter.IteratorSpec.remaining.? #64 #65 #5909
[mk-app] #7757 = #7755 #7756
[mk-app] #7758 => #7740 #7757
[mk-app] #7759 pattern #7755
[mk-quant] #7760 internal_vstd!std_specs.iter.impl&__2.remaining.?_definition 3 #7759 #7758
[attach-var-names] #7760 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #7761 => #7754 #7760
[mk-app] #7762 or #7748 #7757
[inst-discovered] theory-solving 0x0 basic# ; #7758
[mk-app] #7763 = #7758 #7762
[instance] 0x0 #7763
[attach-enode] #7763 0
[end-of-instance]
[mk-quant] #7763 internal_vstd!std_specs.iter.impl&__2.remaining.?_definition 3 #7759 #7762
[attach-var-names] #7763 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #7764 not #7754
[mk-app] #7765 or #7764 #7763
[mk-app] #7766 => #7754 #7763
[inst-discovered] theory-solving 0x0 basic# ; #7766
[mk-app] #7767 = #7766 #7765
[instance] 0x0 #7767
[attach-enode] #7767 0
[end-of-instance]
[mk-app] #7766 fuel_bool_default #796
[mk-app] #7767 fuel_bool #796
[mk-app] #7768 vstd!std_specs.iter.IteratorSpec.will_return_none.? #120 #66 #33
[mk-app] #7769 vstd!std_specs.iter.IteratorSpec.will_return_none.? #64 #65 #5909
[mk-app] #7770 = #7768 #7769
[mk-app] #7771 => #7740 #7770
[mk-app] #7772 pattern #7768
[mk-quant] #7773 internal_vstd!std_specs.iter.impl&__2.will_return_none.?_definition 3 #7772 #7771
[attach-var-names] #7773 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #7774 => #7767 #7773
[mk-app] #7775 or #7748 #7770
[inst-discovered] theory-solving 0x0 basic# ; #7771
[mk-app] #7776 = #7771 #7775
[instance] 0x0 #7776
[attach-enode] #7776 0
[end-of-instance]
[mk-quant] #7776 internal_vstd!std_specs.iter.impl&__2.will_return_none.?_definition 3 #7772 #7775
[attach-var-names] #7776 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #7777 not #7767
[mk-app] #7778 or #7777 #7776
[mk-app] #7779 => #7767 #7776
[inst-discovered] theory-solving 0x0 basic# ; #7779
[mk-app] #7780 = #7779 #7778
[instance] 0x0 #7780
[attach-enode] #7780 0
[end-of-instance]
[mk-app] #7779 fuel_bool_default #797
[mk-app] #7780 fuel_bool #797
[mk-app] #7781 vstd!std_specs.iter.IteratorSpec.decrease.? #120 #66 #33
[mk-app] #7782 vstd!std_specs.iter.IteratorSpec.decrease.? #64 #65 #5909
[mk-app] #7783 = #7781 #7782
[mk-app] #7784 => #7740 #7783
[mk-app] #7785 pattern #7781
[mk-quant] #7786 internal_vstd!std_specs.iter.impl&__2.decrease.?_definition 3 #7785 #7784
[attach-var-names] #7786 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #7787 => #7780 #7786
[mk-app] #7788 or #7748 #7783
[inst-discovered] theory-solving 0x0 basic# ; #7784
[mk-app] #7789 = #7784 #7788
[instance] 0x0 #7789
[attach-enode] #7789 0
[end-of-instance]
[mk-quant] #7789 internal_vstd!std_specs.iter.impl&__2.decrease.?_definition 3 #7785 #7788
[attach-var-names] #7789 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #7790 not #7780
[mk-app] #7791 or #7790 #7789
[mk-app] #7792 => #7780 #7789
[inst-discovered] theory-solving 0x0 basic# ; #7792
[mk-app] #7793 = #7792 #7791
[instance] 0x0 #7793
[attach-enode] #7793 0
[end-of-instance]
[mk-app] #7792 fuel_bool_default #798
[mk-app] #7793 fuel_bool #798
[mk-app] #7794 and #3106 #3807
[mk-app] #7795 vstd!std_specs.iter.IteratorSpec.peek.? #120 #3581 #32 #33
[mk-app] #7796 vstd!std_specs.iter.IteratorSpec.peek.? #1249 #263 #4443 #33
[mk-app] #7797 = #7795 #7796
[mk-app] #7798 => #7794 #7797
[mk-app] #7799 pattern #7795
[mk-quant] #7800 internal_vstd!std_specs.iter.impl&__2.peek.?_definition 4 #7799 #7798
[attach-var-names] #7800 (|index!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #7801 => #7793 #7800
[mk-app] #7802 not #7794
[mk-app] #7803 or #7802 #7797
[inst-discovered] theory-solving 0x0 basic# ; #7798
[mk-app] #7804 = #7798 #7803
[instance] 0x0 #7804
[attach-enode] #7804 0
[end-of-instance]
[mk-quant] #7804 internal_vstd!std_specs.iter.impl&__2.peek.?_definition 4 #7799 #7803
[attach-var-names] #7804 (|index!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #7805 not #7793
[mk-app] #7806 or #7805 #7804
[mk-app] #7807 => #7793 #7804
[inst-discovered] theory-solving 0x0 basic# ; #7807
[mk-app] #7808 = #7807 #7806
[instance] 0x0 #7808
[attach-enode] #7808 0
[end-of-instance]
[mk-app] #7807 fuel_bool_default #802
[mk-app] #7808 fuel_bool #802
[mk-app] #7809 vstd!std_specs.iter.trigger_peek_implications.? #64 #65 #33
[mk-app] #7810 = #7809 #1
[mk-app] #7811 pattern #7809
[mk-quant] #7812 internal_vstd!std_specs.iter.trigger_peek_implications.?_definition 3 #7811 #7810
[attach-var-names] #7812 (|x!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7813 => #7808 #7812
[inst-discovered] theory-solving 0x0 basic# ; #7810
[mk-app] #7814 = #7810 #7809
[instance] 0x0 #7814
[attach-enode] #7814 0
[end-of-instance]
[mk-quant] #7814 internal_vstd!std_specs.iter.trigger_peek_implications.?_definition 3 #7811 #7809
[attach-var-names] #7814 (|x!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7815 not #7808
[mk-app] #7816 or #7815 #7814
[mk-app] #7817 => #7808 #7814
[inst-discovered] theory-solving 0x0 basic# ; #7817
[mk-app] #7818 = #7817 #7816
[instance] 0x0 #7818
[attach-enode] #7818 0
[end-of-instance]
[mk-app] #7817 fuel_bool_default #808
[mk-app] #7818 fuel_bool #808
[mk-app] #7819 tr_bound%core!iter.range.Step. #64 #65
[mk-app] #7820 and #4513 #7819
[mk-app] #7821 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #120 #1976 #33
[mk-app] #7822 = #7821 #6187
[mk-app] #7823 => #7820 #7822
[mk-app] #7824 pattern #7821
[mk-quant] #7825 internal_vstd!std_specs.range.impl&__3.obeys_prophetic_iter_laws.?_definition 3 #7824 #7823
[attach-var-names] #7825 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #7826 => #7818 #7825
[mk-app] #7827 not #7820
[mk-app] #7828 or #7827 #7822
[inst-discovered] theory-solving 0x0 basic# ; #7823
[mk-app] #7829 = #7823 #7828
[instance] 0x0 #7829
[attach-enode] #7829 0
[end-of-instance]
[mk-quant] #7829 internal_vstd!std_specs.range.impl&__3.obeys_prophetic_iter_laws.?_definition 3 #7824 #7828
[attach-var-names] #7829 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #7830 not #7818
[mk-app] #7831 or #7830 #7829
[mk-app] #7832 => #7818 #7829
[inst-discovered] theory-solving 0x0 basic# ; #7832
[mk-app] #7833 = #7832 #7831
[instance] 0x0 #7833
[attach-enode] #7833 0
[end-of-instance]
[mk-app] #7832 fuel_bool_default #809
[mk-app] #7833 %%lambda%%4 #1248 #1229 #63 #64 #65
[mk-app] #7834 %%apply%%0 #7833 #33
[mk-app] #7835 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #1248 #1229 #63 #33
[mk-app] #7836 %Poly%core!option.Option. #7835
[mk-app] #7837 core!option.Option./Some/0 #64 #65 #7836
[mk-app] #7838 = #7834 #7837
[mk-app] #7839 pattern #7834
[mk-quant] #7840 k!11608 6 #7839 #7838
[attach-var-names] #7840 (|i$| ; |Poly|) (|%%hole%%4| ; |Type|) (|%%hole%%3| ; |Dcr|) (|%%hole%%2| ; |Poly|) (|%%hole%%1| ; |Type|) (|%%hole%%0| ; |Dcr|)
[mk-app] #7841 fuel_bool #809
[mk-app] #7842 vstd!std_specs.iter.IteratorSpec.remaining.? #120 #1976 #33
[mk-app] #7843 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #64 #65 #2005 #2017
[mk-app] #7844 %I #7843
[mk-app] #7845 > #7844 #334
[mk-app] #7846 if #7845 #7844 #334
[mk-app] #7847 nClip #7846
[mk-app] #7848 I #7847
[mk-app] #7849 %%lambda%%4 #64 #65 #2005 #64 #65
[mk-app] #7850 mk_fun #7849
[mk-app] #7851 Poly%fun%1. #7850
[mk-app] #7852 vstd!seq.Seq.new.? #64 #65 #7848 #7851
[mk-app] #7853 = #7842 #7852
[mk-app] #7854 => #7820 #7853
[mk-app] #7855 pattern #7842
[mk-quant] #7856 internal_vstd!std_specs.range.impl&__3.remaining.?_definition 3 #7855 #7854
[attach-var-names] #7856 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #7857 => #7841 #7856
[mk-app] #7858 <= #7844 #334
[mk-app] #7859 not #7858
[inst-discovered] theory-solving 0x0 arith# ; #7845
[mk-app] #7860 = #7845 #7859
[instance] 0x0 #7860
[attach-enode] #7860 0
[end-of-instance]
[mk-app] #7860 if #7858 #334 #7844
[mk-app] #7861 if #7859 #7844 #334
[inst-discovered] theory-solving 0x0 arith# ; #7861
[mk-app] #7862 = #7861 #7860
[instance] 0x0 #7862
[attach-enode] #7862 0
[end-of-instance]
[mk-app] #7861 nClip #7860
[mk-app] #7862 I #7861
[mk-app] #7863 vstd!seq.Seq.new.? #64 #65 #7862 #7851
[mk-app] #7864 = #7842 #7863
[mk-app] #7865 or #7827 #7864
[mk-app] #7866 => #7820 #7864
[inst-discovered] theory-solving 0x0 basic# ; #7866
[mk-app] #7867 = #7866 #7865
[instance] 0x0 #7867
[attach-enode] #7867 0
[end-of-instance]
[mk-quant] #7866 internal_vstd!std_specs.range.impl&__3.remaining.?_definition 3 #7855 #7865
[attach-var-names] #7866 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #7859 not #7841
[mk-app] #7867 or #7859 #7866
[mk-app] #7868 => #7841 #7866
[inst-discovered] theory-solving 0x0 basic# ; #7868
[mk-app] #7869 = #7868 #7867
[instance] 0x0 #7869
[attach-enode] #7869 0
[end-of-instance]
[mk-app] #7868 fuel_bool_default #810
[mk-app] #7869 fuel_bool #810
[mk-app] #7870 vstd!std_specs.iter.IteratorSpec.decrease.? #120 #1976 #33
[mk-app] #7871 nClip #7844
[mk-app] #7872 I #7871
[mk-app] #7873 core!option.Option./Some #7872
[mk-app] #7874 Poly%core!option.Option. #7873
[mk-app] #7875 = #7870 #7874
[mk-app] #7876 => #7820 #7875
[mk-app] #7877 pattern #7870
[mk-quant] #7878 internal_vstd!std_specs.range.impl&__3.decrease.?_definition 3 #7877 #7876
[attach-var-names] #7878 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #7879 => #7869 #7878
[mk-app] #7880 or #7827 #7875
[inst-discovered] theory-solving 0x0 basic# ; #7876
[mk-app] #7881 = #7876 #7880
[instance] 0x0 #7881
[attach-enode] #7881 0
[end-of-instance]
[mk-quant] #7881 internal_vstd!std_specs.range.impl&__3.decrease.?_definition 3 #7877 #7880
[attach-var-names] #7881 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #7882 not #7869
[mk-app] #7883 or #7882 #7881
[mk-app] #7884 => #7869 #7881
[inst-discovered] theory-solving 0x0 basic# ; #7884
[mk-app] #7885 = #7884 #7883
[instance] 0x0 #7885
[attach-enode] #7885 0
[end-of-instance]
[mk-app] #7884 fuel_bool_default #811
[mk-app] #7885 fuel_bool #811
[mk-app] #7886 tr_bound%core!iter.range.Step. #1249 #263
[mk-app] #7887 and #3106 #7886
[mk-app] #7888 vstd!std_specs.iter.IteratorSpec.peek.? #120 #1992 #32 #33
[mk-app] #7889 %Poly%core!ops.range.Range. #32
[mk-app] #7890 core!ops.range.Range./Range/start #7889
[mk-app] #7891 core!ops.range.Range./Range/end #7889
[mk-app] #7892 vstd!std_specs.iter.StepSpec.spec_steps_between_int.? #1249 #263 #7890 #7891
[mk-app] #7893 %I #7892
[mk-app] #7894 <= #186 #7893
[mk-app] #7895 and #510 #7894
[mk-app] #7896 vstd!std_specs.iter.StepSpec.spec_forward_checked_int.? #1249 #263 #7890 #33
[mk-app] #7897 %Poly%core!option.Option. #7896
[mk-app] #7898 core!option.Option./Some/0 #1249 #263 #7897
[mk-app] #7899 core!option.Option./Some #7898
[mk-app] #7900 if #7895 #7899 #1714
[mk-app] #7901 Poly%core!option.Option. #7900
[mk-app] #7902 = #7888 #7901
[mk-app] #7903 => #7887 #7902
[mk-app] #7904 pattern #7888
[mk-quant] #7905 internal_vstd!std_specs.range.impl&__3.peek.?_definition 4 #7904 #7903
[attach-var-names] #7905 (|index!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #7906 => #7885 #7905
[attach-meaning] #363 arith (- 1)
[mk-app] #7907 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #7907 = #510 #514
[instance] 0x0 #7907
[attach-enode] #7907 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #7907 * #363 #7893
[mk-app] #7908 + #186 #7907
[mk-app] #7909 <= #7908 #334
[inst-discovered] theory-solving 0x0 arith# ; #7894
[mk-app] #7910 = #7894 #7909
[instance] 0x0 #7910
[attach-enode] #7910 0
[end-of-instance]
[mk-app] #7910 and #514 #7909
[mk-app] #7911 if #7910 #7899 #1714
[mk-app] #7912 Poly%core!option.Option. #7911
[mk-app] #7913 = #7888 #7912
[mk-app] #7914 not #7887
[mk-app] #7915 or #7914 #7913
[mk-app] #7916 => #7887 #7913
[inst-discovered] theory-solving 0x0 basic# ; #7916
[mk-app] #7917 = #7916 #7915
[instance] 0x0 #7917
[attach-enode] #7917 0
[end-of-instance]
[mk-quant] #7916 internal_vstd!std_specs.range.impl&__3.peek.?_definition 4 #7904 #7915
[attach-var-names] #7916 (|index!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #7917 not #7885
[mk-app] #7918 or #7917 #7916
[mk-app] #7919 => #7885 #7916
[inst-discovered] theory-solving 0x0 basic# ; #7919
[mk-app] #7920 = #7919 #7918
[instance] 0x0 #7920
[attach-enode] #7920 0
[end-of-instance]
[mk-app] #7919 fuel_bool_default #837
[mk-app] #7920 fuel_bool #837
[mk-app] #7921 TYPE%core!slice.iter.IterMut. #64 #65
[mk-app] #7922 vstd!std_specs.iter.IteratorSpec.obeys_prophetic_iter_laws.? #120 #7921 #33
[mk-app] #7923 = #7922 #6187
[mk-app] #7924 => #4513 #7923
[mk-app] #7925 pattern #7922
[mk-quant] #7926 internal_vstd!std_specs.slice.impl&__11.obeys_prophetic_iter_laws.?_definition 3 #7925 #7924
[attach-var-names] #7926 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7927 => #7920 #7926
[mk-app] #7928 or #4521 #7923
[inst-discovered] theory-solving 0x0 basic# ; #7924
[mk-app] #7929 = #7924 #7928
[instance] 0x0 #7929
[attach-enode] #7929 0
[end-of-instance]
[mk-quant] #7929 internal_vstd!std_specs.slice.impl&__11.obeys_prophetic_iter_laws.?_definition 3 #7925 #7928
[attach-var-names] #7929 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7930 not #7920
[mk-app] #7931 or #7930 #7929
[mk-app] #7932 => #7920 #7929
[inst-discovered] theory-solving 0x0 basic# ; #7932
[mk-app] #7933 = #7932 #7931
[instance] 0x0 #7933
[attach-enode] #7933 0
[end-of-instance]
[mk-app] #7932 fuel_bool_default #838
[mk-app] #7933 fuel_bool #838
[mk-app] #7934 vstd!std_specs.iter.IteratorSpec.will_return_none.? #120 #7921 #33
[mk-app] #7935 = #7934 #6187
[mk-app] #7936 => #4513 #7935
[mk-app] #7937 pattern #7934
[mk-quant] #7938 internal_vstd!std_specs.slice.impl&__11.will_return_none.?_definition 3 #7937 #7936
[attach-var-names] #7938 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7939 => #7933 #7938
[mk-app] #7940 or #4521 #7935
[inst-discovered] theory-solving 0x0 basic# ; #7936
[mk-app] #7941 = #7936 #7940
[instance] 0x0 #7941
[attach-enode] #7941 0
[end-of-instance]
[mk-quant] #7941 internal_vstd!std_specs.slice.impl&__11.will_return_none.?_definition 3 #7937 #7940
[attach-var-names] #7941 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7942 not #7933
[mk-app] #7943 or #7942 #7941
[mk-app] #7944 => #7933 #7941
[inst-discovered] theory-solving 0x0 basic# ; #7944
[mk-app] #7945 = #7944 #7943
[instance] 0x0 #7945
[attach-enode] #7945 0
[end-of-instance]
[mk-app] #7944 fuel_bool_default #839
[mk-app] #7945 fuel_bool #839
[mk-app] #7946 vstd!std_specs.iter.IteratorSpec.peek.? #120 #3596 #32 #33
[mk-app] #7947 = #7946 #1715
[mk-app] #7948 => #3106 #7947
[mk-app] #7949 pattern #7946
[mk-quant] #7950 internal_vstd!std_specs.slice.impl&__11.peek.?_definition 4 #7949 #7948
[attach-var-names] #7950 (|index!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7951 => #7945 #7950
[mk-app] #7952 or #4044 #7947
[inst-discovered] theory-solving 0x0 basic# ; #7948
[mk-app] #7953 = #7948 #7952
[instance] 0x0 #7953
[attach-enode] #7953 0
[end-of-instance]
[mk-quant] #7953 internal_vstd!std_specs.slice.impl&__11.peek.?_definition 4 #7949 #7952
[attach-var-names] #7953 (|index!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7954 not #7945
[mk-app] #7955 or #7954 #7953
[mk-app] #7956 => #7945 #7953
[inst-discovered] theory-solving 0x0 basic# ; #7956
[mk-app] #7957 = #7956 #7955
[instance] 0x0 #7957
[attach-enode] #7957 0
[end-of-instance]
[mk-app] #7956 fuel_bool_default #856
[mk-app] #7957 fuel_bool #856
[mk-app] #7958 vstd!view.View.view.? #3173 #4943 #33
[mk-app] #7959 = #7958 #4955
[mk-app] #7960 pattern #7958
[mk-quant] #7961 internal_vstd!raw_ptr.impl&__3.view.?_definition 3 #7960 #7959
[attach-var-names] #7961 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #7962 => #7957 #7961
[mk-app] #7963 not #7957
[mk-app] #7964 or #7963 #7961
[inst-discovered] theory-solving 0x0 basic# ; #7962
[mk-app] #7965 = #7962 #7964
[instance] 0x0 #7965
[attach-enode] #7965 0
[end-of-instance]
[mk-app] #7965 fuel_bool_default #897
[mk-app] #7966 fuel_bool #897
[mk-app] #7967 tr_bound%vstd!view.View. #64 #65
[mk-app] #7968 vstd!view.View.view.? #6245 #65 #33
[mk-app] #7969 = #7968 #4498
[mk-app] #7970 => #7967 #7969
[mk-app] #7971 pattern #7968
[mk-quant] #7972 internal_vstd!view.impl&__0.view.?_definition 3 #7971 #7970
[attach-var-names] #7972 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #7973 => #7966 #7972
[mk-app] #7974 not #7967
[mk-app] #7975 or #7974 #7969
[inst-discovered] theory-solving 0x0 basic# ; #7970
[mk-app] #7976 = #7970 #7975
[instance] 0x0 #7976
[attach-enode] #7976 0
[end-of-instance]
[mk-quant] #7976 internal_vstd!view.impl&__0.view.?_definition 3 #7971 #7975
[attach-var-names] #7976 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #7977 not #7966
[mk-app] #7978 or #7977 #7976
[mk-app] #7979 => #7966 #7976
[inst-discovered] theory-solving 0x0 basic# ; #7979
[mk-app] #7980 = #7979 #7978
[instance] 0x0 #7980
[attach-enode] #7980 0
[end-of-instance]
[mk-app] #7979 fuel_bool_default #898
[mk-app] #7980 fuel_bool #898
[mk-app] #7981 BOX #120 #1321 #64
[mk-app] #7982 vstd!view.View.view.? #7981 #65 #33
[mk-app] #7983 = #7982 #4498
[mk-app] #7984 => #7967 #7983
[mk-app] #7985 pattern #7982
[mk-quant] #7986 internal_vstd!view.impl&__2.view.?_definition 3 #7985 #7984
[attach-var-names] #7986 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #7987 => #7980 #7986
[mk-app] #7988 or #7974 #7983
[inst-discovered] theory-solving 0x0 basic# ; #7984
[mk-app] #7989 = #7984 #7988
[instance] 0x0 #7989
[attach-enode] #7989 0
[end-of-instance]
[mk-quant] #7989 internal_vstd!view.impl&__2.view.?_definition 3 #7985 #7988
[attach-var-names] #7989 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #7990 not #7980
[mk-app] #7991 or #7990 #7989
[mk-app] #7992 => #7980 #7989
[inst-discovered] theory-solving 0x0 basic# ; #7992
[mk-app] #7993 = #7992 #7991
[instance] 0x0 #7993
[attach-enode] #7993 0
[end-of-instance]
[mk-app] #7992 fuel_bool_default #899
[mk-app] #7993 fuel_bool #899
[mk-app] #7994 and #4513 #7967
[mk-app] #7995 RC #120 #1321 #64
[mk-app] #7996 vstd!view.View.view.? #7995 #65 #33
[mk-app] #7997 = #7996 #4498
[mk-app] #7998 => #7994 #7997
[mk-app] #7999 pattern #7996
[mk-quant] #8000 internal_vstd!view.impl&__4.view.?_definition 3 #7999 #7998
[attach-var-names] #8000 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8001 => #7993 #8000
[mk-app] #8002 not #7994
[mk-app] #8003 or #8002 #7997
[inst-discovered] theory-solving 0x0 basic# ; #7998
[mk-app] #8004 = #7998 #8003
[instance] 0x0 #8004
[attach-enode] #8004 0
[end-of-instance]
[mk-quant] #8004 internal_vstd!view.impl&__4.view.?_definition 3 #7999 #8003
[attach-var-names] #8004 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8005 not #7993
[mk-app] #8006 or #8005 #8004
[mk-app] #8007 => #7993 #8004
[inst-discovered] theory-solving 0x0 basic# ; #8007
[mk-app] #8008 = #8007 #8006
[instance] 0x0 #8008
[attach-enode] #8008 0
[end-of-instance]
[mk-app] #8007 fuel_bool_default #900
[mk-app] #8008 fuel_bool #900
[mk-app] #8009 ARC #120 #1321 #64
[mk-app] #8010 vstd!view.View.view.? #8009 #65 #33
[mk-app] #8011 = #8010 #4498
[mk-app] #8012 => #7994 #8011
[mk-app] #8013 pattern #8010
[mk-quant] #8014 internal_vstd!view.impl&__6.view.?_definition 3 #8013 #8012
[attach-var-names] #8014 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8015 => #8008 #8014
[mk-app] #8016 or #8002 #8011
[inst-discovered] theory-solving 0x0 basic# ; #8012
[mk-app] #8017 = #8012 #8016
[instance] 0x0 #8017
[attach-enode] #8017 0
[end-of-instance]
[mk-quant] #8017 internal_vstd!view.impl&__6.view.?_definition 3 #8013 #8016
[attach-var-names] #8017 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #8018 not #8008
[mk-app] #8019 or #8018 #8017
[mk-app] #8020 => #8008 #8017
[inst-discovered] theory-solving 0x0 basic# ; #8020
[mk-app] #8021 = #8020 #8019
[instance] 0x0 #8021
[attach-enode] #8021 0
[end-of-instance]
[mk-app] #8020 fuel_bool_default #901
[mk-app] #8021 fuel_bool #901
[mk-app] #8022 vstd!view.View.view.? #120 #1703 #33
[mk-app] #8023 = #8022 #33
[mk-app] #8024 => #4513 #8023
[mk-app] #8025 pattern #8022
[mk-quant] #8026 internal_vstd!view.impl&__14.view.?_definition 3 #8025 #8024
[attach-var-names] #8026 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8027 => #8021 #8026
[mk-app] #8028 or #4521 #8023
[inst-discovered] theory-solving 0x0 basic# ; #8024
[mk-app] #8029 = #8024 #8028
[instance] 0x0 #8029
[attach-enode] #8029 0
[end-of-instance]
[mk-quant] #8029 internal_vstd!view.impl&__14.view.?_definition 3 #8025 #8028
[attach-var-names] #8029 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8030 not #8021
[mk-app] #8031 or #8030 #8029
[mk-app] #8032 => #8021 #8029
[inst-discovered] theory-solving 0x0 basic# ; #8032
[mk-app] #8033 = #8032 #8031
[instance] 0x0 #8033
[attach-enode] #8033 0
[end-of-instance]
[mk-app] #8032 fuel_bool_default #902
[mk-app] #8033 fuel_bool #902
[mk-app] #8034 vstd!view.View.view.? #120 #1184 #33
[mk-app] #8035 = #8034 #33
[mk-app] #8036 pattern #8034
[mk-quant] #8037 internal_vstd!view.impl&__16.view.?_definition 1 #8036 #8035
[attach-var-names] #8037 (|self!| ; |Poly|)
[mk-app] #8038 => #8033 #8037
[mk-app] #8039 not #8033
[mk-app] #8040 or #8039 #8037
[inst-discovered] theory-solving 0x0 basic# ; #8038
[mk-app] #8041 = #8038 #8040
[instance] 0x0 #8041
[attach-enode] #8041 0
[end-of-instance]
[mk-app] #8041 fuel_bool_default #903
[mk-app] #8042 fuel_bool #903
[mk-app] #8043 vstd!view.View.view.? #120 #135 #33
[mk-app] #8044 = #8043 #33
[mk-app] #8045 pattern #8043
[mk-quant] #8046 internal_vstd!view.impl&__18.view.?_definition 1 #8045 #8044
[attach-var-names] #8046 (|self!| ; |Poly|)
[mk-app] #8047 => #8042 #8046
[mk-app] #8048 not #8042
[mk-app] #8049 or #8048 #8046
[inst-discovered] theory-solving 0x0 basic# ; #8047
[mk-app] #8050 = #8047 #8049
[instance] 0x0 #8050
[attach-enode] #8050 0
[end-of-instance]
[mk-app] #8050 fuel_bool_default #904
[mk-app] #8051 fuel_bool #904
[mk-app] #8052 vstd!view.View.view.? #120 #3308 #33
[mk-app] #8053 = #8052 #33
[mk-app] #8054 pattern #8052
[mk-quant] #8055 internal_vstd!view.impl&__20.view.?_definition 1 #8054 #8053
[attach-var-names] #8055 (|self!| ; |Poly|)
[mk-app] #8056 => #8051 #8055
[mk-app] #8057 not #8051
[mk-app] #8058 or #8057 #8055
[inst-discovered] theory-solving 0x0 basic# ; #8056
[mk-app] #8059 = #8056 #8058
[instance] 0x0 #8059
[attach-enode] #8059 0
[end-of-instance]
[mk-app] #8059 fuel_bool_default #905
[mk-app] #8060 fuel_bool #905
[attach-meaning] #280 arith 32
[mk-app] #8061 vstd!view.View.view.? #120 #3313 #33
[mk-app] #8062 = #8061 #33
[attach-meaning] #280 arith 32
[mk-app] #8063 pattern #8061
[mk-quant] #8064 internal_vstd!view.impl&__24.view.?_definition 1 #8063 #8062
[attach-var-names] #8064 (|self!| ; |Poly|)
[mk-app] #8065 => #8060 #8064
[mk-app] #8066 not #8060
[mk-app] #8067 or #8066 #8064
[inst-discovered] theory-solving 0x0 basic# ; #8065
[mk-app] #8068 = #8065 #8067
[instance] 0x0 #8068
[attach-enode] #8068 0
[end-of-instance]
[mk-app] #8068 fuel_bool_default #906
[mk-app] #8069 fuel_bool #906
[mk-app] #8070 vstd!view.View.view.? #120 #203 #33
[mk-app] #8071 = #8070 #33
[mk-app] #8072 pattern #8070
[mk-quant] #8073 internal_vstd!view.impl&__30.view.?_definition 1 #8072 #8071
[attach-var-names] #8073 (|self!| ; |Poly|)
[mk-app] #8074 => #8069 #8073
[mk-app] #8075 not #8069
[mk-app] #8076 or #8075 #8073
[inst-discovered] theory-solving 0x0 basic# ; #8074
[mk-app] #8077 = #8074 #8076
[instance] 0x0 #8077
[attach-enode] #8077 0
[end-of-instance]
[mk-app] #8077 fuel_bool_default #907
[mk-app] #8078 fuel_bool #907
[mk-app] #8079 vstd!view.View.view.? #120 #211 #33
[mk-app] #8080 = #8079 #33
[mk-app] #8081 pattern #8079
[mk-quant] #8082 internal_vstd!view.impl&__42.view.?_definition 1 #8081 #8080
[attach-var-names] #8082 (|self!| ; |Poly|)
[mk-app] #8083 => #8078 #8082
[mk-app] #8084 not #8078
[mk-app] #8085 or #8084 #8082
[inst-discovered] theory-solving 0x0 basic# ; #8083
[mk-app] #8086 = #8083 #8085
[instance] 0x0 #8086
[attach-enode] #8086 0
[end-of-instance]
[mk-app] #8086 fuel_bool_default #908
[mk-app] #8087 fuel_bool #908
[mk-app] #8088 vstd!view.View.view.? #120 #244 #33
[mk-app] #8089 = #8088 #33
[mk-app] #8090 pattern #8088
[mk-quant] #8091 internal_vstd!view.impl&__44.view.?_definition 1 #8090 #8089
[attach-var-names] #8091 (|self!| ; |Poly|)
[mk-app] #8092 => #8087 #8091
[mk-app] #8093 not #8087
[mk-app] #8094 or #8093 #8091
[inst-discovered] theory-solving 0x0 basic# ; #8092
[mk-app] #8095 = #8092 #8094
[instance] 0x0 #8095
[attach-enode] #8095 0
[end-of-instance]
[mk-app] #8095 fuel_bool_default #909
[mk-app] #8096 fuel_bool #909
[mk-app] #8097 DST #64
[mk-app] #8098 vstd!view.View.view.? #8097 #2678 #33
[mk-app] #8099 vstd!view.View.view.? #64 #65 #2702
[mk-app] #8100 tuple%1./tuple%1 #8099
[mk-app] #8101 Poly%tuple%1. #8100
[mk-app] #8102 = #8098 #8101
[mk-app] #8103 => #7994 #8102
[mk-app] #8104 pattern #8098
[mk-quant] #8105 internal_vstd!view.impl&__46.view.?_definition 3 #8104 #8103
[attach-var-names] #8105 (|self!| ; |Poly|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #8106 => #8096 #8105
[mk-app] #8107 or #8002 #8102
[inst-discovered] theory-solving 0x0 basic# ; #8103
[mk-app] #8108 = #8103 #8107
[instance] 0x0 #8108
[attach-enode] #8108 0
[end-of-instance]
[mk-quant] #8108 internal_vstd!view.impl&__46.view.?_definition 3 #8104 #8107
[attach-var-names] #8108 (|self!| ; |Poly|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #8109 not #8096
[mk-app] #8110 or #8109 #8108
[mk-app] #8111 => #8096 #8108
[inst-discovered] theory-solving 0x0 basic# ; #8111
[mk-app] #8112 = #8111 #8110
[instance] 0x0 #8112
[attach-enode] #8112 0
[end-of-instance]
[mk-app] #8111 fuel_bool_default #910
[mk-app] #8112 fuel_bool #910
[mk-app] #8113 tr_bound%vstd!view.View. #1216 #1217
[mk-app] #8114 and #3987 #4513 #8113 #7967
[mk-app] #8115 vstd!view.View.view.? #8097 #2737 #33
[mk-app] #8116 vstd!view.View.view.? #1216 #1217 #2764
[mk-app] #8117 vstd!view.View.view.? #64 #65 #2776
[mk-app] #8118 tuple%2./tuple%2 #8116 #8117
[mk-app] #8119 Poly%tuple%2. #8118
[mk-app] #8120 = #8115 #8119
[mk-app] #8121 => #8114 #8120
[mk-app] #8122 pattern #8115
[mk-quant] #8123 internal_vstd!view.impl&__48.view.?_definition 5 #8122 #8121
[attach-var-names] #8123 (|self!| ; |Poly|) (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #8124 => #8112 #8123
[mk-app] #8125 not #8114
[mk-app] #8126 or #8125 #8120
[inst-discovered] theory-solving 0x0 basic# ; #8121
[mk-app] #8127 = #8121 #8126
[instance] 0x0 #8127
[attach-enode] #8127 0
[end-of-instance]
[mk-quant] #8127 internal_vstd!view.impl&__48.view.?_definition 5 #8122 #8126
[attach-var-names] #8127 (|self!| ; |Poly|) (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #8128 not #8112
[mk-app] #8129 or #8128 #8127
[mk-app] #8130 => #8112 #8127
[inst-discovered] theory-solving 0x0 basic# ; #8130
[mk-app] #8131 = #8130 #8129
[instance] 0x0 #8131
[attach-enode] #8131 0
[end-of-instance]
[mk-app] #8130 fuel_bool_default #911
[mk-app] #8131 fuel_bool #911
[mk-app] #8132 u_tokenizer!text.StrShim.sv.? #1198 #1683 #33
[mk-app] #8133 = #8132 #4912
[mk-app] #8134 pattern #8132
[mk-quant] #8135 internal_u_tokenizer!text.impl&__2.sv.?_definition 1 #8134 #8133
[attach-var-names] #8135 (|self!| ; |Poly|)
[mk-app] #8136 => #8131 #8135
[mk-app] #8137 not #8131
[mk-app] #8138 or #8137 #8135
[inst-discovered] theory-solving 0x0 basic# ; #8136
[mk-app] #8139 = #8136 #8138
[instance] 0x0 #8139
[attach-enode] #8139 0
[end-of-instance]
[mk-app] #8139 fuel_bool_default #912
[mk-app] #8140 fuel_bool #912
[mk-app] #8141 u_tokenizer!text.StrShim.sv.? #120 #1341 #33
[mk-app] #8142 = #8141 #6737
[mk-app] #8143 pattern #8141
[mk-quant] #8144 internal_u_tokenizer!text.impl&__3.sv.?_definition 1 #8143 #8142
[attach-var-names] #8144 (|self!| ; |Poly|)
[mk-app] #8145 => #8140 #8144
[mk-app] #8146 not #8140
[mk-app] #8147 or #8146 #8144
[inst-discovered] theory-solving 0x0 basic# ; #8145
[mk-app] #8148 = #8145 #8147
[instance] 0x0 #8148
[attach-enode] #8148 0
[end-of-instance]
[mk-app] #8148 fuel_bool_default #913
[mk-app] #8149 fuel_bool #913
[mk-app] #8150 tr_bound%u_tokenizer!text.StrShim. #64 #65
[mk-app] #8151 u_tokenizer!text.StrShim.sv.? #6245 #65 #33
[mk-app] #8152 = #8151 #6494
[mk-app] #8153 => #8150 #8152
[mk-app] #8154 pattern #8151
[mk-quant] #8155 internal_u_tokenizer!text.impl&__4.sv.?_definition 3 #8154 #8153
[attach-var-names] #8155 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8156 => #8149 #8155
[mk-app] #8157 not #8150
[mk-app] #8158 or #8157 #8152
[inst-discovered] theory-solving 0x0 basic# ; #8153
[mk-app] #8159 = #8153 #8158
[instance] 0x0 #8159
[attach-enode] #8159 0
[end-of-instance]
[mk-quant] #8159 internal_u_tokenizer!text.impl&__4.sv.?_definition 3 #8154 #8158
[attach-var-names] #8159 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8160 not #8149
[mk-app] #8161 or #8160 #8159
[mk-app] #8162 => #8149 #8159
[inst-discovered] theory-solving 0x0 basic# ; #8162
[mk-app] #8163 = #8162 #8161
[instance] 0x0 #8163
[attach-enode] #8163 0
[end-of-instance]
[mk-app] #8162 fuel_bool_default #914
[mk-app] #8163 fuel_bool #914
[mk-app] #8164 u_tokenizer!text.Show.shown.? #120 #1341 #33
[mk-app] #8165 = #8164 #6737
[mk-app] #8166 pattern #8164
[mk-quant] #8167 internal_u_tokenizer!text.impl&__8.shown.?_definition 1 #8166 #8165
[attach-var-names] #8167 (|self!| ; |Poly|)
[mk-app] #8168 => #8163 #8167
[mk-app] #8169 not #8163
[mk-app] #8170 or #8169 #8167
[inst-discovered] theory-solving 0x0 basic# ; #8168
[mk-app] #8171 = #8168 #8170
[instance] 0x0 #8171
[attach-enode] #8171 0
[end-of-instance]
[mk-app] #8171 fuel_bool_default #915
[mk-app] #8172 fuel_bool #915
[mk-app] #8173 u_tokenizer!text.Show.shown.? #1198 #1683 #33
[mk-app] #8174 = #8173 #4912
[mk-app] #8175 pattern #8173
[mk-quant] #8176 internal_u_tokenizer!text.impl&__9.shown.?_definition 1 #8175 #8174
[attach-var-names] #8176 (|self!| ; |Poly|)
[mk-app] #8177 => #8172 #8176
[mk-app] #8178 not #8172
[mk-app] #8179 or #8178 #8176
[inst-discovered] theory-solving 0x0 basic# ; #8177
[mk-app] #8180 = #8177 #8179
[instance] 0x0 #8180
[attach-enode] #8180 0
[end-of-instance]
[mk-app] #8180 fuel_bool_default #916
[mk-app] #8181 fuel_bool #916
[mk-app] #8182 tr_bound%u_tokenizer!text.Show. #64 #65
[mk-app] #8183 u_tokenizer!text.Show.shown.? #6245 #65 #33
[mk-app] #8184 = #8183 #6486
[mk-app] #8185 => #8182 #8184
[mk-app] #8186 pattern #8183
[mk-quant] #8187 internal_u_tokenizer!text.impl&__11.shown.?_definition 3 #8186 #8185
[attach-var-names] #8187 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8188 => #8181 #8187
[mk-app] #8189 not #8182
[mk-app] #8190 or #8189 #8184
[inst-discovered] theory-solving 0x0 basic# ; #8185
[mk-app] #8191 = #8185 #8190
[instance] 0x0 #8191
[attach-enode] #8191 0
[end-of-instance]
[mk-quant] #8191 internal_u_tokenizer!text.impl&__11.shown.?_definition 3 #8186 #8190
[attach-var-names] #8191 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8192 not #8181
[mk-app] #8193 or #8192 #8191
[mk-app] #8194 => #8181 #8191
[inst-discovered] theory-solving 0x0 basic# ; #8194
[mk-app] #8195 = #8194 #8193
[instance] 0x0 #8195
[attach-enode] #8195 0
[end-of-instance]
[mk-app] #8194 fuel_bool_default #927
[mk-app] #8195 fuel_bool #927
[mk-app] #8196 u_tokenizer!lst.Length.length_of.? #1198 #1683 #33
[mk-app] #8197 u_tokenizer!text.blen.? #4912
[mk-app] #8198 I #8197
[mk-app] #8199 = #8196 #8198
[mk-app] #8200 pattern #8196
[mk-quant] #8201 internal_u_tokenizer!lst.impl&__0.length_of.?_definition 1 #8200 #8199
[attach-var-names] #8201 (|self!| ; |Poly|)
[mk-app] #8202 => #8195 #8201
[mk-app] #8203 not #8195
[mk-app] #8204 or #8203 #8201
[inst-discovered] theory-solving 0x0 basic# ; #8202
[mk-app] #8205 = #8202 #8204
[instance] 0x0 #8205
[attach-enode] #8205 0
[end-of-instance]
[mk-app] #8205 fuel_bool_default #928
[mk-app] #8206 fuel_bool #928
[mk-app] #8207 u_tokenizer!lst.Length.length_of.? #120 #1341 #33
[mk-app] #8208 u_tokenizer!text.blen.? #6737
[mk-app] #8209 I #8208
[mk-app] #8210 = #8207 #8209
[mk-app] #8211 pattern #8207
[mk-quant] #8212 internal_u_tokenizer!lst.impl&__1.length_of.?_definition 1 #8211 #8210
[attach-var-names] #8212 (|self!| ; |Poly|)
[mk-app] #8213 => #8206 #8212
[mk-app] #8214 not #8206
[mk-app] #8215 or #8214 #8212
[inst-discovered] theory-solving 0x0 basic# ; #8213
[mk-app] #8216 = #8213 #8215
[instance] 0x0 #8216
[attach-enode] #8216 0
[end-of-instance]
[mk-app] #8216 fuel_bool_default #929
[mk-app] #8217 fuel_bool #929
[mk-app] #8218 u_tokenizer!lst.Length.length_of.? #120 #5484 #33
[mk-app] #8219 vstd!seq.Seq.len.? #64 #65 #5486
[mk-app] #8220 I #8219
[mk-app] #8221 = #8218 #8220
[mk-app] #8222 => #4513 #8221
[mk-app] #8223 pattern #8218
[mk-quant] #8224 internal_u_tokenizer!lst.impl&__2.length_of.?_definition 3 #8223 #8222
[attach-var-names] #8224 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8225 => #8217 #8224
[mk-app] #8226 or #4521 #8221
[inst-discovered] theory-solving 0x0 basic# ; #8222
[mk-app] #8227 = #8222 #8226
[instance] 0x0 #8227
[attach-enode] #8227 0
[end-of-instance]
[mk-quant] #8227 internal_u_tokenizer!lst.impl&__2.length_of.?_definition 3 #8223 #8226
[attach-var-names] #8227 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8228 not #8217
[mk-app] #8229 or #8228 #8227
[mk-app] #8230 => #8217 #8227
[inst-discovered] theory-solving 0x0 basic# ; #8230
[mk-app] #8231 = #8230 #8229
[instance] 0x0 #8231
[attach-enode] #8231 0
[end-of-instance]
[mk-app] #8230 fuel_bool_default #930
[mk-app] #8231 fuel_bool #930
[mk-app] #8232 tr_bound%u_tokenizer!lst.Length. #64 #65
[mk-app] #8233 u_tokenizer!lst.Length.length_of.? #6245 #65 #33
[mk-app] #8234 = #8233 #6967
[mk-app] #8235 => #8232 #8234
[mk-app] #8236 pattern #8233
[mk-quant] #8237 internal_u_tokenizer!lst.impl&__3.length_of.?_definition 3 #8236 #8235
[attach-var-names] #8237 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8238 => #8231 #8237
[mk-app] #8239 not #8232
[mk-app] #8240 or #8239 #8234
[inst-discovered] theory-solving 0x0 basic# ; #8235
[mk-app] #8241 = #8235 #8240
[instance] 0x0 #8241
[attach-enode] #8241 0
[end-of-instance]
[mk-quant] #8241 internal_u_tokenizer!lst.impl&__3.length_of.?_definition 3 #8236 #8240
[attach-var-names] #8241 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8242 not #8231
[mk-app] #8243 or #8242 #8241
[mk-app] #8244 => #8231 #8241
[inst-discovered] theory-solving 0x0 basic# ; #8244
[mk-app] #8245 = #8244 #8243
[instance] 0x0 #8245
[attach-enode] #8245 0
[end-of-instance]
[mk-app] #8244 fuel_bool_default #931
[mk-app] #8245 fuel_bool #931
[mk-app] #8246 u_tokenizer!lst.Emptiness.none.? #1198 #1683 #33
[mk-app] #8247 = #4913 #334
[mk-app] #8248 B #8247
[mk-app] #8249 = #8246 #8248
[mk-app] #8250 pattern #8246
[mk-quant] #8251 internal_u_tokenizer!lst.impl&__4.none.?_definition 1 #8250 #8249
[attach-var-names] #8251 (|self!| ; |Poly|)
[mk-app] #8252 => #8245 #8251
[mk-app] #8253 not #8245
[mk-app] #8254 or #8253 #8251
[inst-discovered] theory-solving 0x0 basic# ; #8252
[mk-app] #8255 = #8252 #8254
[instance] 0x0 #8255
[attach-enode] #8255 0
[end-of-instance]
[mk-app] #8255 fuel_bool_default #932
[mk-app] #8256 fuel_bool #932
[mk-app] #8257 u_tokenizer!lst.Emptiness.none.? #120 #1341 #33
[mk-app] #8258 vstd!seq.Seq.len.? #120 #244 #6737
[mk-app] #8259 = #8258 #334
[mk-app] #8260 B #8259
[mk-app] #8261 = #8257 #8260
[mk-app] #8262 pattern #8257
[mk-quant] #8263 internal_u_tokenizer!lst.impl&__5.none.?_definition 1 #8262 #8261
[attach-var-names] #8263 (|self!| ; |Poly|)
[mk-app] #8264 => #8256 #8263
[mk-app] #8265 not #8256
[mk-app] #8266 or #8265 #8263
[inst-discovered] theory-solving 0x0 basic# ; #8264
[mk-app] #8267 = #8264 #8266
[instance] 0x0 #8267
[attach-enode] #8267 0
[end-of-instance]
[mk-app] #8267 fuel_bool_default #933
[mk-app] #8268 fuel_bool #933
[mk-app] #8269 u_tokenizer!lst.Emptiness.none.? #120 #5484 #33
[mk-app] #8270 = #8219 #334
[mk-app] #8271 B #8270
[mk-app] #8272 = #8269 #8271
[mk-app] #8273 => #4513 #8272
[mk-app] #8274 pattern #8269
[mk-quant] #8275 internal_u_tokenizer!lst.impl&__6.none.?_definition 3 #8274 #8273
[attach-var-names] #8275 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8276 => #8268 #8275
[mk-app] #8277 or #4521 #8272
[inst-discovered] theory-solving 0x0 basic# ; #8273
[mk-app] #8278 = #8273 #8277
[instance] 0x0 #8278
[attach-enode] #8278 0
[end-of-instance]
[mk-quant] #8278 internal_u_tokenizer!lst.impl&__6.none.?_definition 3 #8274 #8277
[attach-var-names] #8278 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8279 not #8268
[mk-app] #8280 or #8279 #8278
[mk-app] #8281 => #8268 #8278
[inst-discovered] theory-solving 0x0 basic# ; #8281
[mk-app] #8282 = #8281 #8280
[instance] 0x0 #8282
[attach-enode] #8282 0
[end-of-instance]
[mk-app] #8281 fuel_bool_default #934
[mk-app] #8282 fuel_bool #934
[mk-app] #8283 tr_bound%u_tokenizer!lst.Emptiness. #64 #65
[mk-app] #8284 u_tokenizer!lst.Emptiness.none.? #6245 #65 #33
[mk-app] #8285 = #8284 #6985
[mk-app] #8286 => #8283 #8285
[mk-app] #8287 pattern #8284
[mk-quant] #8288 internal_u_tokenizer!lst.impl&__7.none.?_definition 3 #8287 #8286
[attach-var-names] #8288 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8289 => #8282 #8288
[mk-app] #8290 not #8283
[mk-app] #8291 or #8290 #8285
[inst-discovered] theory-solving 0x0 basic# ; #8286
[mk-app] #8292 = #8286 #8291
[instance] 0x0 #8292
[attach-enode] #8292 0
[end-of-instance]
[mk-quant] #8292 internal_u_tokenizer!lst.impl&__7.none.?_definition 3 #8287 #8291
[attach-var-names] #8292 (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #8293 not #8282
[mk-app] #8294 or #8293 #8292
[mk-app] #8295 => #8282 #8292
[inst-discovered] theory-solving 0x0 basic# ; #8295
[mk-app] #8296 = #8295 #8294
[instance] 0x0 #8296
[attach-enode] #8296 0
[end-of-instance]
[mk-app] #8295 fuel_bool_default #943
[mk-app] #8296 fuel_bool #943
[mk-app] #8297 u_tokenizer!lex.within.? #32 #33
[mk-app] #8298 %Poly%u_tokenizer!lex.Class. #32
[mk-app] #8299 is-u_tokenizer!lex.Class./Word #8298
[attach-meaning] #7067 arith 95
[mk-app] #8300 or #7354 #7116
[mk-app] #8301 is-u_tokenizer!lex.Class./Digits #8298
[mk-app] #8302 is-u_tokenizer!lex.Class./Quoted #8298
[attach-meaning] #7059 arith 39
[mk-app] #8303 is-u_tokenizer!lex.Class./Line #8298
[mk-app] #8304 and #7125 #7123
[mk-app] #8305 if #8303 #7123 #8304
[mk-app] #8306 if #8302 #7111 #8305
[mk-app] #8307 if #8301 #7036 #8306
[mk-app] #8308 if #8299 #8300 #8307
[mk-app] #8309 = #8297 #8308
[mk-app] #8310 pattern #8297
[mk-quant] #8311 internal_u_tokenizer!lex.within.?_definition 2 #8310 #8309
[attach-var-names] #8311 (|c!| ; |Poly|) (|k!| ; |Poly|)
[mk-app] #8312 => #8296 #8311
[mk-app] #8313 is #8298
[inst-discovered] theory-solving 0x0 datatype# ; #8299
[mk-app] #8314 = #8299 #8313
[instance] 0x0 #8314
[attach-enode] #8314 0
[end-of-instance]
[mk-app] #8314 is #8298
[inst-discovered] theory-solving 0x0 datatype# ; #8301
[mk-app] #8315 = #8301 #8314
[instance] 0x0 #8315
[attach-enode] #8315 0
[end-of-instance]
[mk-app] #8315 is #8298
[inst-discovered] theory-solving 0x0 datatype# ; #8302
[mk-app] #8316 = #8302 #8315
[instance] 0x0 #8316
[attach-enode] #8316 0
[end-of-instance]
[mk-app] #8316 is #8298
[inst-discovered] theory-solving 0x0 datatype# ; #8303
[mk-app] #8317 = #8303 #8316
[instance] 0x0 #8317
[attach-enode] #8317 0
[end-of-instance]
[mk-app] #8317 if #8316 #7123 #8304
[mk-app] #8318 if #8315 #7111 #8317
[mk-app] #8319 if #8314 #7036 #8318
[mk-app] #8320 if #8313 #8300 #8319
[mk-app] #8321 = #8297 #8320
[mk-quant] #8322 internal_u_tokenizer!lex.within.?_definition 2 #8310 #8321
[attach-var-names] #8322 (|c!| ; |Poly|) (|k!| ; |Poly|)
[mk-app] #8323 not #8296
[mk-app] #8324 or #8323 #8322
[mk-app] #8325 => #8296 #8322
[inst-discovered] theory-solving 0x0 basic# ; #8325
[mk-app] #8326 = #8325 #8324
[instance] 0x0 #8326
[attach-enode] #8326 0
[end-of-instance]
[mk-app] #8325 fuel_bool_default #944
[mk-app] #8326 u_tokenizer!lex.rec%scan.? #63 #43 #32 #6585
[mk-app] #8327 u_tokenizer!lex.rec%scan.? #63 #43 #32 #6587
[mk-app] #8328 = #8326 #8327
[mk-app] #8329 pattern #8326
[mk-quant] #8330 internal_u_tokenizer!lex.scan._fuel_to_zero_definition 4 #8329 #8328
[attach-var-names] #8330 (|fuel%| ; |Fuel|) (|w!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8331 has_type #63 #1463
[mk-app] #8332 has_type #32 #2107
[mk-app] #8333 and #8331 #4205 #8332
[mk-app] #8334 u_tokenizer!lex.rec%scan.? #63 #43 #32 #6593
[mk-app] #8335 vstd!seq.Seq.len.? #120 #244 #63
[mk-app] #8336 < #664 #8335
[mk-app] #8337 and #4208 #8336
[mk-app] #8338 vstd!seq.Seq.index.? #120 #244 #63 #43
[mk-app] #8339 u_tokenizer!lex.within.? #32 #8338
[mk-app] #8340 and #8337 #8339
[mk-app] #8341 Add #664 #289
[mk-app] #8342 I #8341
[mk-app] #8343 u_tokenizer!lex.rec%scan.? #63 #8342 #32 #6585
[mk-app] #8344 if #8340 #8343 #664
[mk-app] #8345 = #8334 #8344
[mk-app] #8346 => #8333 #8345
[mk-app] #8347 pattern #8334
[mk-quant] #8348 internal_u_tokenizer!lex.scan._fuel_to_body_definition 4 #8347 #8346
[attach-var-names] #8348 (|fuel%| ; |Fuel|) (|w!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #4208
[mk-app] #8349 = #4208 #4229
[instance] 0x0 #8349
[attach-enode] #8349 0
[end-of-instance]
[mk-app] #8349 <= #8335 #664
[mk-app] #8350 not #8349
[inst-discovered] theory-solving 0x0 arith# ; #8336
[mk-app] #8351 = #8336 #8350
[instance] 0x0 #8351
[attach-enode] #8351 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #8351 + #4069 #8335
[attach-meaning] #363 arith (- 1)
[mk-app] #8352 * #363 #8335
[mk-app] #8353 + #664 #8352
[mk-app] #8351 >= #8353 #334
[inst-discovered] theory-solving 0x0 arith# ; #8349
[mk-app] #8354 = #8349 #8351
[instance] 0x0 #8354
[attach-enode] #8354 0
[end-of-instance]
[mk-app] #8354 not #8351
[mk-app] #8355 and #4229 #8354 #8339
[mk-app] #8356 if #8355 #8343 #664
[mk-app] #8357 = #8334 #8356
[mk-app] #8358 not #8333
[mk-app] #8359 or #8358 #8357
[mk-app] #8360 => #8333 #8357
[inst-discovered] theory-solving 0x0 basic# ; #8360
[mk-app] #8361 = #8360 #8359
[instance] 0x0 #8361
[attach-enode] #8361 0
[end-of-instance]
[mk-quant] #8360 internal_u_tokenizer!lex.scan._fuel_to_body_definition 4 #8347 #8359
[attach-var-names] #8360 (|fuel%| ; |Fuel|) (|w!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8349 fuel_bool #944
[mk-app] #8350 has_type #43 #1463
[mk-app] #8361 and #8350 #3976 #2108
[mk-app] #8362 u_tokenizer!lex.scan.? #43 #32 #33
[mk-app] #8363 fuel_nat%u_tokenizer!lex.scan.
[mk-app] #8364 succ #8363
[mk-app] #8365 u_tokenizer!lex.rec%scan.? #43 #32 #33 #8364
[mk-app] #8366 = #8362 #8365
[mk-app] #8367 => #8361 #8366
[mk-app] #8368 pattern #8362
[mk-quant] #8369 internal_u_tokenizer!lex.scan.?_definition 3 #8368 #8367
[attach-var-names] #8369 (|w!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8370 => #8349 #8369
[mk-app] #8371 not #8361
[mk-app] #8372 or #8371 #8366
[inst-discovered] theory-solving 0x0 basic# ; #8367
[mk-app] #8373 = #8367 #8372
[instance] 0x0 #8373
[attach-enode] #8373 0
[end-of-instance]
[mk-quant] #8373 internal_u_tokenizer!lex.scan.?_definition 3 #8368 #8372
[attach-var-names] #8373 (|w!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8374 not #8349
[mk-app] #8375 or #8374 #8373
[mk-app] #8376 => #8349 #8373
[inst-discovered] theory-solving 0x0 basic# ; #8376
[mk-app] #8377 = #8376 #8375
[instance] 0x0 #8377
[attach-enode] #8377 0
[end-of-instance]
[mk-app] #8376 fuel_bool_default #945
[mk-app] #8377 u_tokenizer!lex.rec%comment.? #43 #32 #6585
[mk-app] #8378 u_tokenizer!lex.rec%comment.? #43 #32 #6587
[mk-app] #8379 = #8377 #8378
[mk-app] #8380 pattern #8377
[mk-quant] #8381 internal_u_tokenizer!lex.comment._fuel_to_zero_definition 3 #8380 #8379
[attach-var-names] #8381 (|fuel%| ; |Fuel|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8382 and #8350 #3976
[mk-app] #8383 u_tokenizer!lex.rec%comment.? #43 #32 #6593
[mk-app] #8384 Add #674 #289
[mk-app] #8385 I #8384
[mk-app] #8386 u_tokenizer!lex.Class./Line
[mk-app] #8387 Poly%u_tokenizer!lex.Class. #8386
[mk-app] #8388 u_tokenizer!lex.scan.? #43 #8385 #8387
[mk-app] #8389 vstd!seq.Seq.empty.? #120 #1463
[mk-app] #8390 I #8388
[mk-app] #8391 vstd!seq.Seq.subrange.? #120 #244 #43 #8385 #8390
[mk-app] #8392 u_tokenizer!text.start_trimmed.? #8391
[mk-app] #8393 Poly%vstd!seq.Seq<char.>. #8392
[mk-app] #8394 u_tokenizer!text.end_trimmed.? #8393
[mk-app] #8395 Poly%vstd!seq.Seq<char.>. #8394
[mk-app] #8396 vstd!seq.Seq.push.? #120 #1463 #8389 #8395
[mk-app] #8397 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8396
[mk-app] #8398 < #8388 #6779
[mk-app] #8399 Add #8388 #289
[mk-app] #8400 I #8399
[mk-app] #8401 u_tokenizer!lex.Class./Blanks
[mk-app] #8402 Poly%u_tokenizer!lex.Class. #8401
[mk-app] #8403 u_tokenizer!lex.scan.? #43 #8400 #8402
[mk-app] #8404 if #8398 #8403 #8388
[mk-app] #8405 < #674 #8404
[mk-app] #8406 < #8404 #6779
[mk-app] #8407 and #8405 #8406
[mk-app] #8408 I #8404
[mk-app] #8409 vstd!seq.Seq.index.? #120 #244 #43 #8408
[mk-app] #8410 %I #8409
[attach-meaning] #7063 arith 35
[mk-app] #8411 = #8410 #7063
[mk-app] #8412 and #8407 #8411
[mk-app] #8413 and #8412 #8398
[mk-app] #8414 u_tokenizer!lex.rec%comment.? #43 #8408 #6585
[mk-app] #8415 Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8397
[mk-app] #8416 Poly%u_tokenizer!lex.Comment. #8414
[mk-app] #8417 %Poly%u_tokenizer!lex.Comment. #8416
[mk-app] #8418 u_tokenizer!lex.Comment./Comment/lines #8417
[mk-app] #8419 Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8418
[mk-app] #8420 vstd!seq.Seq.add.? #120 #1463 #8415 #8419
[mk-app] #8421 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8420
[mk-app] #8422 u_tokenizer!lex.Comment./Comment/end #8417
[mk-app] #8423 I #8422
[mk-app] #8424 %I #8423
[mk-app] #8425 u_tokenizer!lex.Comment./Comment/next #8417
[mk-app] #8426 I #8425
[mk-app] #8427 %I #8426
[mk-app] #8428 u_tokenizer!lex.Comment./Comment #8421 #8424 #8427
[mk-app] #8429 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8415
[mk-app] #8430 %I #8390
[mk-app] #8431 %I #8408
[mk-app] #8432 u_tokenizer!lex.Comment./Comment #8429 #8430 #8431
[mk-app] #8433 if #8413 #8428 #8432
[mk-app] #8434 = #8383 #8433
[mk-app] #8435 => #8382 #8434
[mk-app] #8436 pattern #8383
[mk-quant] #8437 internal_u_tokenizer!lex.comment._fuel_to_body_definition 3 #8436 #8435
[attach-var-names] #8437 (|fuel%| ; |Fuel|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8438 <= #6779 #8388
[mk-app] #8439 not #8438
[inst-discovered] theory-solving 0x0 arith# ; #8398
[mk-app] #8440 = #8398 #8439
[instance] 0x0 #8440
[attach-enode] #8440 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #8440 * #363 #8388
[mk-app] #8441 + #6779 #8440
[mk-app] #8442 <= #8441 #334
[inst-discovered] theory-solving 0x0 arith# ; #8438
[mk-app] #8443 = #8438 #8442
[instance] 0x0 #8443
[attach-enode] #8443 0
[end-of-instance]
[mk-app] #8443 not #8442
[mk-app] #8444 if #8442 #8388 #8403
[mk-app] #8445 if #8443 #8403 #8388
[inst-discovered] theory-solving 0x0 arith# ; #8445
[mk-app] #8446 = #8445 #8444
[instance] 0x0 #8446
[attach-enode] #8446 0
[end-of-instance]
[mk-app] #8445 <= #8444 #674
[mk-app] #8446 not #8445
[mk-app] #8447 < #674 #8444
[inst-discovered] theory-solving 0x0 arith# ; #8447
[mk-app] #8448 = #8447 #8446
[instance] 0x0 #8448
[attach-enode] #8448 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #8447 + #3965 #8444
[attach-meaning] #363 arith (- 1)
[mk-app] #8448 * #363 #8444
[mk-app] #8449 + #674 #8448
[mk-app] #8447 >= #8449 #334
[inst-discovered] theory-solving 0x0 arith# ; #8445
[mk-app] #8450 = #8445 #8447
[instance] 0x0 #8450
[attach-enode] #8450 0
[end-of-instance]
[mk-app] #8450 not #8447
[mk-app] #8451 <= #6779 #8444
[mk-app] #8452 not #8451
[mk-app] #8453 < #8444 #6779
[inst-discovered] theory-solving 0x0 arith# ; #8453
[mk-app] #8454 = #8453 #8452
[instance] 0x0 #8454
[attach-enode] #8454 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #8453 + #6779 #8448
[mk-app] #8454 <= #8453 #334
[inst-discovered] theory-solving 0x0 arith# ; #8451
[mk-app] #8455 = #8451 #8454
[instance] 0x0 #8455
[attach-enode] #8455 0
[end-of-instance]
[mk-app] #8455 not #8454
[mk-app] #8456 I #8444
[mk-app] #8457 vstd!seq.Seq.index.? #120 #244 #43 #8456
[mk-app] #8458 %I #8457
[mk-app] #8459 = #8458 #7063
[mk-app] #8460 and #8450 #8455 #8459 #8443
[mk-app] #8461 u_tokenizer!lex.rec%comment.? #43 #8456 #6585
[mk-app] #8462 Poly%u_tokenizer!lex.Comment. #8461
[mk-app] #8463 %Poly%u_tokenizer!lex.Comment. #8462
[mk-app] #8464 u_tokenizer!lex.Comment./Comment/lines #8463
[mk-app] #8465 Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8464
[mk-app] #8466 vstd!seq.Seq.add.? #120 #1463 #8415 #8465
[mk-app] #8467 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8466
[mk-app] #8468 u_tokenizer!lex.Comment./Comment/end #8463
[mk-app] #8469 I #8468
[mk-app] #8470 %I #8469
[mk-app] #8471 u_tokenizer!lex.Comment./Comment/next #8463
[mk-app] #8472 I #8471
[mk-app] #8473 %I #8472
[mk-app] #8474 u_tokenizer!lex.Comment./Comment #8467 #8470 #8473
[mk-app] #8475 %I #8456
[mk-app] #8476 u_tokenizer!lex.Comment./Comment #8429 #8430 #8475
[mk-app] #8477 if #8460 #8474 #8476
[mk-app] #8478 = #8383 #8477
[mk-app] #8479 not #8382
[mk-app] #8480 or #8479 #8478
[mk-app] #8481 => #8382 #8478
[inst-discovered] theory-solving 0x0 basic# ; #8481
[mk-app] #8482 = #8481 #8480
[instance] 0x0 #8482
[attach-enode] #8482 0
[end-of-instance]
[mk-quant] #8481 internal_u_tokenizer!lex.comment._fuel_to_body_definition 3 #8436 #8480
[attach-var-names] #8481 (|fuel%| ; |Fuel|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8451 fuel_bool #945
[mk-app] #8452 and #6592 #185
[mk-app] #8438 u_tokenizer!lex.comment.? #32 #33
[mk-app] #8439 fuel_nat%u_tokenizer!lex.comment.
[mk-app] #8445 succ #8439
[mk-app] #8446 u_tokenizer!lex.rec%comment.? #32 #33 #8445
[mk-app] #8482 = #8438 #8446
[mk-app] #8483 => #8452 #8482
[mk-app] #8484 pattern #8438
[mk-quant] #8485 internal_u_tokenizer!lex.comment.?_definition 2 #8484 #8483
[attach-var-names] #8485 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8486 => #8451 #8485
[mk-app] #8487 not #8452
[mk-app] #8488 or #8487 #8482
[inst-discovered] theory-solving 0x0 basic# ; #8483
[mk-app] #8489 = #8483 #8488
[instance] 0x0 #8489
[attach-enode] #8489 0
[end-of-instance]
[mk-quant] #8489 internal_u_tokenizer!lex.comment.?_definition 2 #8484 #8488
[attach-var-names] #8489 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8490 not #8451
[mk-app] #8491 or #8490 #8489
[mk-app] #8492 => #8451 #8489
[inst-discovered] theory-solving 0x0 basic# ; #8492
[mk-app] #8493 = #8492 #8491
[instance] 0x0 #8493
[attach-enode] #8493 0
[end-of-instance]
[mk-app] #8492 fuel_bool_default #947
[mk-app] #8493 fuel_bool #947
[mk-app] #8494 u_tokenizer!lex.kept.? #32 #33
[mk-app] #8495 vstd!seq.Seq.len.? #120 #244 #33
[mk-app] #8496 = #8495 #334
[mk-app] #8497 vstd!seq.Seq.push.? #120 #1463 #32 #33
[mk-app] #8498 if #8496 #32 #8497
[mk-app] #8499 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8498
[mk-app] #8500 = #8494 #8499
[mk-app] #8501 pattern #8494
[mk-quant] #8502 internal_u_tokenizer!lex.kept.?_definition 2 #8501 #8500
[attach-var-names] #8502 (|cur!| ; |Poly|) (|done!| ; |Poly|)
[mk-app] #8503 => #8493 #8502
[mk-app] #8504 not #8493
[mk-app] #8505 or #8504 #8502
[inst-discovered] theory-solving 0x0 basic# ; #8503
[mk-app] #8506 = #8503 #8505
[instance] 0x0 #8506
[attach-enode] #8506 0
[end-of-instance]
[mk-app] #8506 fuel_bool_default #946
[mk-app] #8507 u_tokenizer!lex.rec%para_state.? #32 #6585
[mk-app] #8508 u_tokenizer!lex.rec%para_state.? #32 #6587
[mk-app] #8509 = #8507 #8508
[mk-app] #8510 pattern #8507
[mk-quant] #8511 internal_u_tokenizer!lex.para_state._fuel_to_zero_definition 2 #8510 #8509
[attach-var-names] #8511 (|fuel%| ; |Fuel|) (|ls!| ; |Poly|)
[mk-app] #8512 has_type #32 #1503
[mk-app] #8513 u_tokenizer!lex.rec%para_state.? #32 #6593
[mk-app] #8514 vstd!seq.Seq.len.? #120 #1463 #32
[mk-app] #8515 = #8514 #334
[mk-app] #8516 tuple%2./tuple%2 #8389 #6465
[mk-app] #8517 vstd!seq_lib.impl&%0.drop_last.? #120 #1463 #32
[mk-app] #8518 u_tokenizer!lex.rec%para_state.? #8517 #6585
[mk-app] #8519 Poly%tuple%2. #8518
[mk-app] #8520 %Poly%tuple%2. #8519
[mk-app] #8521 tuple%2./tuple%2/0 #8520
[mk-app] #8522 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8521
[mk-app] #8523 tuple%2./tuple%2/1 #8520
[mk-app] #8524 %Poly%vstd!seq.Seq<char.>. #8523
[mk-app] #8525 vstd!seq.Seq.last.? #120 #1463 #32
[mk-app] #8526 %Poly%vstd!seq.Seq<char.>. #8525
[mk-app] #8527 Poly%vstd!seq.Seq<char.>. #8526
[mk-app] #8528 vstd!seq.Seq.len.? #120 #244 #8527
[mk-app] #8529 = #8528 #334
[mk-app] #8530 Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8522
[mk-app] #8531 Poly%vstd!seq.Seq<char.>. #8524
[mk-app] #8532 u_tokenizer!lex.kept.? #8530 #8531
[mk-app] #8533 Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8532
[mk-app] #8534 tuple%2./tuple%2 #8533 #6465
[mk-app] #8535 vstd!seq.Seq.len.? #120 #244 #8531
[mk-app] #8536 = #8535 #334
[mk-app] #8537 tuple%2./tuple%2 #8530 #8527
[attach-meaning] #280 arith 32
[mk-app] #8538 vstd!seq.Seq.push.? #120 #244 #8531 #6759
[mk-app] #8539 vstd!seq.Seq.add.? #120 #244 #8538 #8527
[mk-app] #8540 tuple%2./tuple%2 #8530 #8539
[mk-app] #8541 if #8536 #8537 #8540
[mk-app] #8542 if #8529 #8534 #8541
[mk-app] #8543 if #8515 #8516 #8542
[mk-app] #8544 = #8513 #8543
[mk-app] #8545 => #8512 #8544
[mk-app] #8546 pattern #8513
[mk-quant] #8547 internal_u_tokenizer!lex.para_state._fuel_to_body_definition 2 #8546 #8545
[attach-var-names] #8547 (|fuel%| ; |Fuel|) (|ls!| ; |Poly|)
[mk-app] #8548 not #8512
[mk-app] #8549 or #8548 #8544
[inst-discovered] theory-solving 0x0 basic# ; #8545
[mk-app] #8550 = #8545 #8549
[instance] 0x0 #8550
[attach-enode] #8550 0
[end-of-instance]
[mk-quant] #8550 internal_u_tokenizer!lex.para_state._fuel_to_body_definition 2 #8546 #8549
[attach-var-names] #8550 (|fuel%| ; |Fuel|) (|ls!| ; |Poly|)
[mk-app] #8551 fuel_bool #946
[mk-app] #8552 u_tokenizer!lex.para_state.? #33
[mk-app] #8553 fuel_nat%u_tokenizer!lex.para_state.
[mk-app] #8554 succ #8553
[mk-app] #8555 u_tokenizer!lex.rec%para_state.? #33 #8554
[mk-app] #8556 = #8552 #8555
[mk-app] #8557 => #1504 #8556
[mk-app] #8558 pattern #8552
[mk-quant] #8559 internal_u_tokenizer!lex.para_state.?_definition 1 #8558 #8557
[attach-var-names] #8559 (|ls!| ; |Poly|)
[mk-app] #8560 => #8551 #8559
[mk-app] #8561 or #1511 #8556
[inst-discovered] theory-solving 0x0 basic# ; #8557
[mk-app] #8562 = #8557 #8561
[instance] 0x0 #8562
[attach-enode] #8562 0
[end-of-instance]
[mk-quant] #8562 internal_u_tokenizer!lex.para_state.?_definition 1 #8558 #8561
[attach-var-names] #8562 (|ls!| ; |Poly|)
[mk-app] #8563 not #8551
[mk-app] #8564 or #8563 #8562
[mk-app] #8565 => #8551 #8562
[inst-discovered] theory-solving 0x0 basic# ; #8565
[mk-app] #8566 = #8565 #8564
[instance] 0x0 #8566
[attach-enode] #8566 0
[end-of-instance]
[mk-app] #8565 Poly%tuple%2. #8552
[mk-app] #8566 TYPE%tuple%2. #120 #1503 #120 #1463
[mk-app] #8567 has_type #8565 #8566
[mk-app] #8568 => #1504 #8567
[mk-quant] #8569 internal_u_tokenizer!lex.para_state.?_pre_post_definition 1 #8558 #8568
[attach-var-names] #8569 (|ls!| ; |Poly|)
[mk-app] #8570 or #1511 #8567
[inst-discovered] theory-solving 0x0 basic# ; #8568
[mk-app] #8571 = #8568 #8570
[instance] 0x0 #8571
[attach-enode] #8571 0
[end-of-instance]
[mk-quant] #8571 internal_u_tokenizer!lex.para_state.?_pre_post_definition 1 #8558 #8570
[attach-var-names] #8571 (|ls!| ; |Poly|)
[mk-app] #8572 Poly%tuple%2. #8507
[mk-app] #8573 has_type #8572 #8566
[mk-app] #8574 => #8512 #8573
[mk-quant] #8575 internal_u_tokenizer!lex.rec__para_state.?_pre_post_rec_definition 2 #8510 #8574
[attach-var-names] #8575 (|fuel%| ; |Fuel|) (|ls!| ; |Poly|)
[mk-app] #8576 or #8548 #8573
[inst-discovered] theory-solving 0x0 basic# ; #8574
[mk-app] #8577 = #8574 #8576
[instance] 0x0 #8577
[attach-enode] #8577 0
[end-of-instance]
[mk-quant] #8577 internal_u_tokenizer!lex.rec__para_state.?_pre_post_rec_definition 2 #8510 #8576
[attach-var-names] #8577 (|fuel%| ; |Fuel|) (|ls!| ; |Poly|)
[mk-app] #8578 fuel_bool_default #948
[mk-app] #8579 fuel_bool #948
[mk-app] #8580 u_tokenizer!lex.paragraphs.? #33
[mk-app] #8581 %Poly%tuple%2. #8565
[mk-app] #8582 tuple%2./tuple%2/0 #8581
[mk-app] #8583 tuple%2./tuple%2/1 #8581
[mk-app] #8584 u_tokenizer!lex.kept.? #8582 #8583
[mk-app] #8585 = #8580 #8584
[mk-app] #8586 pattern #8580
[mk-quant] #8587 internal_u_tokenizer!lex.paragraphs.?_definition 1 #8586 #8585
[attach-var-names] #8587 (|ls!| ; |Poly|)
[mk-app] #8588 => #8579 #8587
[mk-app] #8589 not #8579
[mk-app] #8590 or #8589 #8587
[inst-discovered] theory-solving 0x0 basic# ; #8588
[mk-app] #8591 = #8588 #8590
[instance] 0x0 #8591
[attach-enode] #8591 0
[end-of-instance]
[mk-app] #8591 fuel_bool_default #950
[mk-app] #8592 fuel_bool #950
[mk-app] #8593 u_tokenizer!lex.is_keyword.? #33
[mk-app] #8594 Int
[attach-meaning] #8594 arith 6811291716301986273449368825017725935254033738261705405048833603991952835075045876383240132138908360443428847307048493261551666763585682461342176821404687
[mk-app] #8595 str%new_strlit #8594
[mk-app] #8596 Poly%strslice%. #8595
[mk-app] #8597 vstd!view.View.view.? #1198 #1683 #8596
[mk-app] #8598 = #33 #8597
[mk-app] #8599 Int
[attach-meaning] #8599 arith 5164234424778956643145788548176495706731884672143565886676863453632589601799387769592491697743554572860685971569938296982623710029869977635113244625113728
[mk-app] #8600 str%new_strlit #8599
[mk-app] #8601 Poly%strslice%. #8600
[mk-app] #8602 vstd!view.View.view.? #1198 #1683 #8601
[mk-app] #8603 = #33 #8602
[mk-app] #8604 or #8598 #8603
[mk-app] #8605 Int
[attach-meaning] #8605 arith 10650269090912363080359850505738289675188735774852904189261428785863736274598114048839047856747688690824240495531843253552061785505505400206141487473736073
[mk-app] #8606 str%new_strlit #8605
[mk-app] #8607 Poly%strslice%. #8606
[mk-app] #8608 vstd!view.View.view.? #1198 #1683 #8607
[mk-app] #8609 = #33 #8608
[mk-app] #8610 or #8604 #8609
[mk-app] #8611 Int
[attach-meaning] #8611 arith 5105887638678314480848168336806850687958787062265622898445340694234602236390603863235414402834031105135902117942261513337794104353991032628150134709706177
[mk-app] #8612 str%new_strlit #8611
[mk-app] #8613 Poly%strslice%. #8612
[mk-app] #8614 vstd!view.View.view.? #1198 #1683 #8613
[mk-app] #8615 = #33 #8614
[mk-app] #8616 or #8610 #8615
[mk-app] #8617 Int
[attach-meaning] #8617 arith 11192778511484193028765142687621720742408521121490023881546372084705213895905044038347340404547399655826561775529715951563641001156599194473143646477662186
[mk-app] #8618 str%new_strlit #8617
[mk-app] #8619 Poly%strslice%. #8618
[mk-app] #8620 vstd!view.View.view.? #1198 #1683 #8619
[mk-app] #8621 = #33 #8620
[mk-app] #8622 or #8616 #8621
[mk-app] #8623 Int
[attach-meaning] #8623 arith 2421584016060735985948006570341685118118806429856450550403070349743870465728237500215504204107432830795435694955925438831275966424090868168810002548986392
[mk-app] #8624 str%new_strlit #8623
[mk-app] #8625 Poly%strslice%. #8624
[mk-app] #8626 vstd!view.View.view.? #1198 #1683 #8625
[mk-app] #8627 = #33 #8626
[mk-app] #8628 or #8622 #8627
[mk-app] #8629 Int
[attach-meaning] #8629 arith 437705789203423680797790722930838799105610583038276302307651652220950639473908161207421620867911906298101684766473885752551685411390429352830367048552233
[mk-app] #8630 str%new_strlit #8629
[mk-app] #8631 Poly%strslice%. #8630
[mk-app] #8632 vstd!view.View.view.? #1198 #1683 #8631
[mk-app] #8633 = #33 #8632
[mk-app] #8634 or #8628 #8633
[mk-app] #8635 Int
[attach-meaning] #8635 arith 3774544017222719357770737970873441973400227560762037829785359692376757371973966408846100513293962631538293776711954863781859287274846417710916460010642595
[mk-app] #8636 str%new_strlit #8635
[mk-app] #8637 Poly%strslice%. #8636
[mk-app] #8638 vstd!view.View.view.? #1198 #1683 #8637
[mk-app] #8639 = #33 #8638
[mk-app] #8640 or #8634 #8639
[mk-app] #8641 Int
[attach-meaning] #8641 arith 8576368709235952921866527600441283951249934585589585992134915527933839129666426568333803825100135590710684835393508312524230563313806264522270344399913559
[mk-app] #8642 str%new_strlit #8641
[mk-app] #8643 Poly%strslice%. #8642
[mk-app] #8644 vstd!view.View.view.? #1198 #1683 #8643
[mk-app] #8645 = #33 #8644
[mk-app] #8646 or #8640 #8645
[mk-app] #8647 Int
[attach-meaning] #8647 arith 12676750787678767721759240923535296269130005999844153164199993116729131540036410756167942069024003803264485832556406300123954291497518853914234917162653093
[mk-app] #8648 str%new_strlit #8647
[mk-app] #8649 Poly%strslice%. #8648
[mk-app] #8650 vstd!view.View.view.? #1198 #1683 #8649
[mk-app] #8651 = #33 #8650
[mk-app] #8652 or #8646 #8651
[mk-app] #8653 Int
[attach-meaning] #8653 arith 3089422842641254323335104226012188677499404212915572578287259788560591211843038870693047687656856645863923505575617102584737619183001383287417537866789667
[mk-app] #8654 str%new_strlit #8653
[mk-app] #8655 Poly%strslice%. #8654
[mk-app] #8656 vstd!view.View.view.? #1198 #1683 #8655
[mk-app] #8657 = #33 #8656
[mk-app] #8658 or #8652 #8657
[mk-app] #8659 Int
[attach-meaning] #8659 arith 10018584850442573698881265044120265269746730955840167528992295727334021820122060141260327221524956799080716255854633759351348003885893074870872133977386655
[mk-app] #8660 str%new_strlit #8659
[mk-app] #8661 Poly%strslice%. #8660
[mk-app] #8662 vstd!view.View.view.? #1198 #1683 #8661
[mk-app] #8663 = #33 #8662
[mk-app] #8664 or #8658 #8663
[mk-app] #8665 Int
[attach-meaning] #8665 arith 585056779608829513232089147029421323016334775798910742041276606380268967534056717751494396281452102904690757758734837744256458363624679276138205901621538
[mk-app] #8666 str%new_strlit #8665
[mk-app] #8667 Poly%strslice%. #8666
[mk-app] #8668 vstd!view.View.view.? #1198 #1683 #8667
[mk-app] #8669 = #33 #8668
[mk-app] #8670 or #8664 #8669
[mk-app] #8671 Int
[attach-meaning] #8671 arith 955844015317323579700338550676938242665749600925367207059062839204807903194418568054928046985407657908369913843753380893498430272960093047142334305550534
[mk-app] #8672 str%new_strlit #8671
[mk-app] #8673 Poly%strslice%. #8672
[mk-app] #8674 vstd!view.View.view.? #1198 #1683 #8673
[mk-app] #8675 = #33 #8674
[mk-app] #8676 or #8670 #8675
[mk-app] #8677 = #8593 #8676
[mk-app] #8678 pattern #8593
[mk-quant] #8679 internal_u_tokenizer!lex.is_keyword.?_definition 1 #8678 #8677
[attach-var-names] #8679 (|s!| ; |Poly|)
[mk-app] #8680 => #8592 #8679
[mk-app] #8681 or #8598 #8603 #8609 #8615 #8621 #8627 #8633 #8639 #8645 #8651 #8657 #8663 #8669 #8675
[inst-discovered] theory-solving 0x0 basic# ; #8681
[mk-app] #8682 = #8681 #8681
[instance] 0x0 #8682
[attach-enode] #8682 0
[end-of-instance]
[mk-app] #8682 = #8593 #8681
[mk-quant] #8683 internal_u_tokenizer!lex.is_keyword.?_definition 1 #8678 #8682
[attach-var-names] #8683 (|s!| ; |Poly|)
[mk-app] #8684 not #8592
[mk-app] #8685 or #8684 #8683
[mk-app] #8686 => #8592 #8683
[inst-discovered] theory-solving 0x0 basic# ; #8686
[mk-app] #8687 = #8686 #8685
[instance] 0x0 #8687
[attach-enode] #8687 0
[end-of-instance]
[mk-app] #8686 fuel_bool_default #951
[mk-app] #8687 fuel_bool #951
[mk-app] #8688 u_tokenizer!lex.one.? #63 #43 #32 #33
[mk-app] #8689 %Poly%u_tokenizer!lex.Kind. #32
[mk-app] #8690 u_tokenizer!lex.Tok./Tok #4253 #664 #8689
[mk-app] #8691 Poly%u_tokenizer!lex.Tok. #8690
[mk-app] #8692 core!option.Option./Some #8691
[mk-app] #8693 Poly%core!option.Option. #8692
[mk-app] #8694 %Poly%core!option.Option. #8693
[mk-app] #8695 u_tokenizer!lex.Step./Step #8694 #175 #664
[mk-app] #8696 = #8688 #8695
[mk-app] #8697 pattern #8688
[mk-quant] #8698 internal_u_tokenizer!lex.one.?_definition 4 #8697 #8696
[attach-var-names] #8698 (|ok!| ; |Poly|) (|kind!| ; |Poly|) (|e!| ; |Poly|) (|k!| ; |Poly|)
[mk-app] #8699 => #8687 #8698
[mk-app] #8700 not #8687
[mk-app] #8701 or #8700 #8698
[inst-discovered] theory-solving 0x0 basic# ; #8699
[mk-app] #8702 = #8699 #8701
[instance] 0x0 #8702
[attach-enode] #8702 0
[end-of-instance]
[mk-app] #8702 has_type #32 #2162
[mk-app] #8703 and #4250 #4205 #8702 #174
[mk-app] #8704 Poly%u_tokenizer!lex.Step. #8688
[mk-app] #8705 has_type #8704 #2298
[mk-app] #8706 => #8703 #8705
[mk-quant] #8707 internal_u_tokenizer!lex.one.?_pre_post_definition 4 #8697 #8706
[attach-var-names] #8707 (|ok!| ; |Poly|) (|kind!| ; |Poly|) (|e!| ; |Poly|) (|k!| ; |Poly|)
[mk-app] #8708 not #8703
[mk-app] #8709 or #8708 #8705
[inst-discovered] theory-solving 0x0 basic# ; #8706
[mk-app] #8710 = #8706 #8709
[instance] 0x0 #8710
[attach-enode] #8710 0
[end-of-instance]
[mk-quant] #8710 internal_u_tokenizer!lex.one.?_pre_post_definition 4 #8697 #8709
[attach-var-names] #8710 (|ok!| ; |Poly|) (|kind!| ; |Poly|) (|e!| ; |Poly|) (|k!| ; |Poly|)
[mk-app] #8711 fuel_bool_default #952
[mk-app] #8712 fuel_bool #952
[mk-app] #8713 u_tokenizer!lex.step.? #32 #33
[mk-app] #8714 vstd!seq.Seq.index.? #120 #244 #32 #33
[mk-app] #8715 %I #8714
[mk-app] #8716 I #8715
[mk-app] #8717 u_tokenizer!lex.is_symbol.? #8716
[mk-app] #8718 Add #186 #289
[mk-app] #8719 I #8718
[mk-app] #8720 %I #8716
[mk-app] #8721 u_tokenizer!lex.Kind./Symbol #8720
[mk-app] #8722 Poly%u_tokenizer!lex.Kind. #8721
[mk-app] #8723 u_tokenizer!lex.one.? #33 #8719 #8722 #6187
[mk-app] #8724 u_tokenizer!lex.is_alpha.? #8716
[attach-meaning] #7067 arith 95
[mk-app] #8725 = #8715 #7067
[mk-app] #8726 or #8724 #8725
[attach-meaning] #7071 arith 36
[mk-app] #8727 = #8715 #7071
[mk-app] #8728 or #8726 #8727
[mk-app] #8729 u_tokenizer!lex.Class./Word
[mk-app] #8730 Poly%u_tokenizer!lex.Class. #8729
[mk-app] #8731 u_tokenizer!lex.scan.? #32 #8719 #8730
[mk-app] #8732 I #8731
[mk-app] #8733 vstd!seq.Seq.subrange.? #120 #244 #32 #33 #8732
[mk-app] #8734 %Poly%vstd!seq.Seq<char.>. #8733
[attach-meaning] #7071 arith 36
[mk-app] #8735 Poly%vstd!seq.Seq<char.>. #8734
[mk-app] #8736 vstd!seq.Seq.len.? #120 #244 #8735
[mk-app] #8737 I #8736
[mk-app] #8738 vstd!seq.Seq.subrange.? #120 #244 #8735 #5102 #8737
[mk-app] #8739 %Poly%vstd!seq.Seq<char.>. #8738
[mk-app] #8740 if #8727 #8739 #8734
[mk-app] #8741 u_tokenizer!lex.is_keyword.? #8735
[mk-app] #8742 %Poly%vstd!seq.Seq<char.>. #8735
[mk-app] #8743 u_tokenizer!lex.Kind./Word #8742
[mk-app] #8744 Poly%u_tokenizer!lex.Kind. #8743
[mk-app] #8745 u_tokenizer!lex.one.? #33 #8732 #8744 #6187
[mk-app] #8746 Poly%vstd!seq.Seq<char.>. #8740
[mk-app] #8747 %Poly%vstd!seq.Seq<char.>. #8746
[mk-app] #8748 u_tokenizer!lex.Kind./Name #8747
[mk-app] #8749 Poly%u_tokenizer!lex.Kind. #8748
[mk-app] #8750 vstd!seq.Seq.len.? #120 #244 #8746
[mk-app] #8751 > #8750 #334
[mk-app] #8752 vstd!seq.Seq.index.? #120 #244 #8746 #5644
[mk-app] #8753 u_tokenizer!lex.is_alpha.? #8752
[mk-app] #8754 and #8751 #8753
[mk-app] #8755 B #8754
[mk-app] #8756 u_tokenizer!lex.one.? #33 #8732 #8749 #8755
[mk-app] #8757 if #8741 #8745 #8756
[mk-app] #8758 u_tokenizer!lex.is_digit.? #8716
[mk-app] #8759 u_tokenizer!lex.Class./Digits
[mk-app] #8760 Poly%u_tokenizer!lex.Class. #8759
[mk-app] #8761 u_tokenizer!lex.scan.? #32 #8719 #8760
[mk-app] #8762 I #8761
[mk-app] #8763 vstd!seq.Seq.subrange.? #120 #244 #32 #33 #8762
[mk-app] #8764 u_tokenizer!lex.value.? #8763
[mk-app] #8765 I #8764
[mk-app] #8766 %I #8765
[mk-app] #8767 u_tokenizer!lex.Kind./Int #8766
[mk-app] #8768 Poly%u_tokenizer!lex.Kind. #8767
[attach-meaning] #285 arith 18446744073709551616
[mk-app] #8769 < #8764 #285
[mk-app] #8770 B #8769
[mk-app] #8771 u_tokenizer!lex.one.? #33 #8762 #8768 #8770
[attach-meaning] #7059 arith 39
[mk-app] #8772 = #8715 #7059
[mk-app] #8773 u_tokenizer!lex.Class./Quoted
[mk-app] #8774 Poly%u_tokenizer!lex.Class. #8773
[mk-app] #8775 u_tokenizer!lex.scan.? #32 #8719 #8774
[mk-app] #8776 < #8775 #6595
[mk-app] #8777 Add #8775 #289
[mk-app] #8778 I #8777
[mk-app] #8779 I #8775
[mk-app] #8780 vstd!seq.Seq.subrange.? #120 #244 #32 #8719 #8779
[mk-app] #8781 %Poly%vstd!seq.Seq<char.>. #8780
[mk-app] #8782 u_tokenizer!lex.Kind./Path #8781
[mk-app] #8783 Poly%u_tokenizer!lex.Kind. #8782
[mk-app] #8784 u_tokenizer!lex.one.? #33 #8778 #8783 #6187
[mk-app] #8785 %Poly%core!option.Option. #1715
[mk-app] #8786 B #2
[mk-app] #8787 %B #8786
[mk-app] #8788 %I #8779
[mk-app] #8789 u_tokenizer!lex.Step./Step #8785 #8787 #8788
[mk-app] #8790 if #8776 #8784 #8789
[attach-meaning] #7063 arith 35
[mk-app] #8791 = #8715 #7063
[mk-app] #8792 Poly%u_tokenizer!lex.Comment. #8438
[mk-app] #8793 %Poly%u_tokenizer!lex.Comment. #8792
[mk-app] #8794 u_tokenizer!lex.Comment./Comment/end #8793
[mk-app] #8795 I #8794
[mk-app] #8796 %I #8795
[mk-app] #8797 u_tokenizer!lex.Comment./Comment/lines #8793
[mk-app] #8798 Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8797
[mk-app] #8799 u_tokenizer!lex.paragraphs.? #8798
[mk-app] #8800 Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8799
[mk-app] #8801 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8800
[mk-app] #8802 u_tokenizer!lex.Kind./Comment #8801
[mk-app] #8803 Poly%u_tokenizer!lex.Kind. #8802
[mk-app] #8804 %Poly%u_tokenizer!lex.Kind. #8803
[mk-app] #8805 u_tokenizer!lex.Tok./Tok #186 #8796 #8804
[mk-app] #8806 Poly%u_tokenizer!lex.Tok. #8805
[mk-app] #8807 core!option.Option./Some #8806
[mk-app] #8808 Poly%core!option.Option. #8807
[mk-app] #8809 %Poly%core!option.Option. #8808
[mk-app] #8810 %B #6187
[mk-app] #8811 u_tokenizer!lex.Comment./Comment/next #8793
[mk-app] #8812 I #8811
[mk-app] #8813 %I #8812
[mk-app] #8814 u_tokenizer!lex.Step./Step #8809 #8810 #8813
[mk-app] #8815 u_tokenizer!text.is_blank.? #8716
[mk-app] #8816 B #8815
[mk-app] #8817 %B #8816
[mk-app] #8818 %I #8719
[mk-app] #8819 u_tokenizer!lex.Step./Step #8785 #8817 #8818
[mk-app] #8820 if #8791 #8814 #8819
[mk-app] #8821 if #8772 #8790 #8820
[mk-app] #8822 if #8758 #8771 #8821
[mk-app] #8823 if #8728 #8757 #8822
[mk-app] #8824 if #8717 #8723 #8823
[mk-app] #8825 = #8713 #8824
[mk-app] #8826 pattern #8713
[mk-quant] #8827 internal_u_tokenizer!lex.step.?_definition 2 #8826 #8825
[attach-var-names] #8827 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8828 => #8712 #8827
[mk-app] #8829 or #8724 #8725 #8727
[inst-discovered] theory-solving 0x0 basic# ; #8829
[mk-app] #8830 = #8829 #8829
[instance] 0x0 #8830
[attach-enode] #8830 0
[end-of-instance]
[mk-app] #8830 <= #8750 #334
[mk-app] #8831 not #8830
[inst-discovered] theory-solving 0x0 arith# ; #8751
[mk-app] #8832 = #8751 #8831
[instance] 0x0 #8832
[attach-enode] #8832 0
[end-of-instance]
[mk-app] #8832 and #8831 #8753
[mk-app] #8833 B #8832
[mk-app] #8834 u_tokenizer!lex.one.? #33 #8732 #8749 #8833
[mk-app] #8835 if #8741 #8745 #8834
[mk-app] #8836 <= #285 #8764
[mk-app] #8837 not #8836
[inst-discovered] theory-solving 0x0 arith# ; #8769
[mk-app] #8838 = #8769 #8837
[instance] 0x0 #8838
[attach-enode] #8838 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #8838 * #363 #8764
[mk-app] #8839 Int
[attach-meaning] #8839 arith (- 18446744073709551616)
[attach-meaning] #285 arith 18446744073709551616
[mk-app] #8840 >= #8764 #285
[inst-discovered] theory-solving 0x0 arith# ; #8836
[mk-app] #8838 = #8836 #8840
[instance] 0x0 #8838
[attach-enode] #8838 0
[end-of-instance]
[mk-app] #8838 not #8840
[mk-app] #8839 B #8838
[mk-app] #8841 u_tokenizer!lex.one.? #33 #8762 #8768 #8839
[mk-app] #8842 <= #6595 #8775
[mk-app] #8843 not #8842
[inst-discovered] theory-solving 0x0 arith# ; #8776
[mk-app] #8844 = #8776 #8843
[instance] 0x0 #8844
[attach-enode] #8844 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #8844 * #363 #8775
[mk-app] #8845 + #6595 #8844
[mk-app] #8846 <= #8845 #334
[inst-discovered] theory-solving 0x0 arith# ; #8842
[mk-app] #8847 = #8842 #8846
[instance] 0x0 #8847
[attach-enode] #8847 0
[end-of-instance]
[mk-app] #8847 not #8846
[mk-app] #8848 if #8846 #8789 #8784
[mk-app] #8849 if #8847 #8784 #8789
[inst-discovered] theory-solving 0x0 datatype# ; #8849
[mk-app] #8850 = #8849 #8848
[instance] 0x0 #8850
[attach-enode] #8850 0
[end-of-instance]
[mk-app] #8849 if #8772 #8848 #8820
[mk-app] #8850 if #8758 #8841 #8849
[mk-app] #8851 if #8829 #8835 #8850
[mk-app] #8852 if #8717 #8723 #8851
[mk-app] #8853 = #8713 #8852
[mk-quant] #8854 internal_u_tokenizer!lex.step.?_definition 2 #8826 #8853
[attach-var-names] #8854 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8836 not #8712
[mk-app] #8837 or #8836 #8854
[mk-app] #8847 => #8712 #8854
[inst-discovered] theory-solving 0x0 basic# ; #8847
[mk-app] #8842 = #8847 #8837
[instance] 0x0 #8842
[attach-enode] #8842 0
[end-of-instance]
[mk-app] #8847 Poly%u_tokenizer!lex.Step. #8713
[mk-app] #8842 has_type #8847 #2298
[mk-app] #8843 => #8452 #8842
[mk-quant] #8855 internal_u_tokenizer!lex.step.?_pre_post_definition 2 #8826 #8843
[attach-var-names] #8855 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8856 or #8487 #8842
[inst-discovered] theory-solving 0x0 basic# ; #8843
[mk-app] #8857 = #8843 #8856
[instance] 0x0 #8857
[attach-enode] #8857 0
[end-of-instance]
[mk-quant] #8857 internal_u_tokenizer!lex.step.?_pre_post_definition 2 #8826 #8856
[attach-var-names] #8857 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8858 u_tokenizer!lex.rec%lexed.? #43 #32 #6585
[mk-app] #8859 u_tokenizer!lex.rec%lexed.? #43 #32 #6587
[mk-app] #8860 = #8858 #8859
[mk-app] #8861 pattern #8858
[mk-quant] #8862 internal_u_tokenizer!lex.lexed._fuel_to_zero_definition 3 #8861 #8860
[attach-var-names] #8862 (|fuel%| ; |Fuel|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8863 u_tokenizer!lex.rec%lexed.? #43 #32 #6593
[mk-app] #8864 < #674 #6779
[mk-app] #8865 and #727 #8864
[mk-app] #8866 u_tokenizer!lex.step.? #43 #32
[mk-app] #8867 Poly%u_tokenizer!lex.Step. #8866
[mk-app] #8868 %Poly%u_tokenizer!lex.Step. #8867
[mk-app] #8869 u_tokenizer!lex.Step./Step/next #8868
[mk-app] #8870 < #674 #8869
[mk-app] #8871 <= #8869 #6779
[mk-app] #8872 and #8870 #8871
[mk-app] #8873 and #8865 #8872
[mk-app] #8874 I #8869
[mk-app] #8875 u_tokenizer!lex.rec%lexed.? #43 #8874 #6585
[mk-app] #8876 u_tokenizer!lex.Step./Step/tok #8868
[mk-app] #8877 is-core!option.Option./Some #8876
[mk-app] #8878 Poly%core!option.Option. #8876
[mk-app] #8879 %Poly%core!option.Option. #8878
[mk-app] #8880 core!option.Option./Some/0 #120 #1543 #8879
[mk-app] #8881 %Poly%u_tokenizer!lex.Tok. #8880
[mk-app] #8882 vstd!seq.Seq.empty.? #120 #1543
[mk-app] #8883 Poly%u_tokenizer!lex.Tok. #8881
[mk-app] #8884 vstd!seq.Seq.push.? #120 #1543 #8882 #8883
[mk-app] #8885 if #8877 #8884 #8882
[mk-app] #8886 Poly%u_tokenizer!lex.Lexed. #8875
[mk-app] #8887 %Poly%u_tokenizer!lex.Lexed. #8886
[mk-app] #8888 u_tokenizer!lex.Lexed./Lexed/toks #8887
[mk-app] #8889 Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #8888
[mk-app] #8890 vstd!seq.Seq.add.? #120 #1543 #8885 #8889
[mk-app] #8891 %Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #8890
[mk-app] #8892 u_tokenizer!lex.Step./Step/ok #8868
[mk-app] #8893 u_tokenizer!lex.Lexed./Lexed/ok #8887
[mk-app] #8894 and #8892 #8893
[mk-app] #8895 B #8894
[mk-app] #8896 %B #8895
[mk-app] #8897 u_tokenizer!lex.Lexed./Lexed #8891 #8896
[mk-app] #8898 %Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #8882
[mk-app] #8899 u_tokenizer!lex.Lexed./Lexed #8898 #8810
[mk-app] #8900 if #8873 #8897 #8899
[mk-app] #8901 = #8863 #8900
[mk-app] #8902 => #8382 #8901
[mk-app] #8903 pattern #8863
[mk-quant] #8904 internal_u_tokenizer!lex.lexed._fuel_to_body_definition 3 #8903 #8902
[attach-var-names] #8904 (|fuel%| ; |Fuel|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #727
[mk-app] #8905 = #727 #736
[instance] 0x0 #8905
[attach-enode] #8905 0
[end-of-instance]
[mk-app] #8905 <= #6779 #674
[mk-app] #8906 not #8905
[inst-discovered] theory-solving 0x0 arith# ; #8864
[mk-app] #8907 = #8864 #8906
[instance] 0x0 #8907
[attach-enode] #8907 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #8907 + #3965 #6779
[attach-meaning] #363 arith (- 1)
[mk-app] #8908 + #674 #6789
[mk-app] #8907 >= #8908 #334
[inst-discovered] theory-solving 0x0 arith# ; #8905
[mk-app] #8909 = #8905 #8907
[instance] 0x0 #8909
[attach-enode] #8909 0
[end-of-instance]
[mk-app] #8909 not #8907
[mk-app] #8910 <= #8869 #674
[mk-app] #8911 not #8910
[inst-discovered] theory-solving 0x0 arith# ; #8870
[mk-app] #8912 = #8870 #8911
[instance] 0x0 #8912
[attach-enode] #8912 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #8912 + #3965 #8869
[attach-meaning] #363 arith (- 1)
[mk-app] #8913 * #363 #8869
[mk-app] #8914 + #674 #8913
[mk-app] #8912 >= #8914 #334
[inst-discovered] theory-solving 0x0 arith# ; #8910
[mk-app] #8915 = #8910 #8912
[instance] 0x0 #8915
[attach-enode] #8915 0
[end-of-instance]
[mk-app] #8915 not #8912
[attach-meaning] #363 arith (- 1)
[mk-app] #8916 + #6789 #8869
[attach-meaning] #363 arith (- 1)
[mk-app] #8917 + #6779 #8913
[mk-app] #8916 >= #8917 #334
[inst-discovered] theory-solving 0x0 arith# ; #8871
[mk-app] #8918 = #8871 #8916
[instance] 0x0 #8918
[attach-enode] #8918 0
[end-of-instance]
[mk-app] #8918 and #736 #8909 #8915 #8916
[mk-app] #8919 is #8876
[inst-discovered] theory-solving 0x0 datatype# ; #8877
[mk-app] #8920 = #8877 #8919
[instance] 0x0 #8920
[attach-enode] #8920 0
[end-of-instance]
[mk-app] #8920 if #8919 #8884 #8882
[mk-app] #8921 vstd!seq.Seq.add.? #120 #1543 #8920 #8889
[mk-app] #8922 %Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #8921
[mk-app] #8923 u_tokenizer!lex.Lexed./Lexed #8922 #8896
[mk-app] #8924 if #8918 #8923 #8899
[mk-app] #8925 = #8863 #8924
[mk-app] #8926 or #8479 #8925
[mk-app] #8927 => #8382 #8925
[inst-discovered] theory-solving 0x0 basic# ; #8927
[mk-app] #8928 = #8927 #8926
[instance] 0x0 #8928
[attach-enode] #8928 0
[end-of-instance]
[mk-quant] #8927 internal_u_tokenizer!lex.lexed._fuel_to_body_definition 3 #8903 #8926
[attach-var-names] #8927 (|fuel%| ; |Fuel|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8905 fuel_bool #953
[mk-app] #8906 u_tokenizer!lex.lexed.? #32 #33
[mk-app] #8910 fuel_nat%u_tokenizer!lex.lexed.
[mk-app] #8911 succ #8910
[mk-app] #8928 u_tokenizer!lex.rec%lexed.? #32 #33 #8911
[mk-app] #8929 = #8906 #8928
[mk-app] #8930 => #8452 #8929
[mk-app] #8931 pattern #8906
[mk-quant] #8932 internal_u_tokenizer!lex.lexed.?_definition 2 #8931 #8930
[attach-var-names] #8932 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8933 => #8905 #8932
[mk-app] #8934 or #8487 #8929
[inst-discovered] theory-solving 0x0 basic# ; #8930
[mk-app] #8935 = #8930 #8934
[instance] 0x0 #8935
[attach-enode] #8935 0
[end-of-instance]
[mk-quant] #8935 internal_u_tokenizer!lex.lexed.?_definition 2 #8931 #8934
[attach-var-names] #8935 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8936 not #8905
[mk-app] #8937 or #8936 #8935
[mk-app] #8938 => #8905 #8935
[inst-discovered] theory-solving 0x0 basic# ; #8938
[mk-app] #8939 = #8938 #8937
[instance] 0x0 #8939
[attach-enode] #8939 0
[end-of-instance]
[mk-app] #8938 fuel_bool_default #954
[mk-app] #8939 fuel_bool #954
[mk-app] #8940 u_tokenizer!lex.blank_between.? #43 #32 #33
[mk-app] #8941 => #7647 #7649
[mk-app] #8942 => #185 #8941
[mk-app] #8943 pattern #7648
[mk-quant] #8944 user_u_tokenizer__lex__blank_between_0 1 #8943 #8942
[attach-var-names] #8944 (|i$| ; |Poly|)
[mk-app] #8945 and #3955 #8944
[mk-app] #8946 = #8940 #8945
[mk-app] #8947 pattern #8940
[mk-quant] #8948 internal_u_tokenizer!lex.blank_between.?_definition 3 #8947 #8946
[attach-var-names] #8948 (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8949 => #8939 #8948
[attach-meaning] #363 arith (- 1)
[mk-app] #8950 * #363 #186
[mk-app] #8951 + #8950 #674
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #3955
[mk-app] #8950 = #3955 #3963
[instance] 0x0 #8950
[attach-enode] #8950 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #8950 * #363 #186
[mk-app] #8951 + #8950 #664
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #7645
[mk-app] #8950 = #7645 #4067
[instance] 0x0 #8950
[attach-enode] #8950 0
[end-of-instance]
[mk-app] #8950 not #3955
[inst-discovered] theory-solving 0x0 arith# ; #7646
[mk-app] #8951 = #7646 #8950
[instance] 0x0 #8951
[attach-enode] #8951 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #8951 * #363 #186
[mk-app] #8952 + #8951 #674
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #3955
[mk-app] #8951 = #3955 #3963
[instance] 0x0 #8951
[attach-enode] #8951 0
[end-of-instance]
[mk-app] #8951 and #4067 #7667
[mk-app] #8952 not #8951
[mk-app] #8953 or #8952 #7649
[mk-app] #8954 => #8951 #7649
[inst-discovered] theory-solving 0x0 basic# ; #8954
[mk-app] #8955 = #8954 #8953
[instance] 0x0 #8955
[attach-enode] #8955 0
[end-of-instance]
[mk-app] #8954 or #192 #8952 #7649
[mk-app] #8955 => #185 #8953
[inst-discovered] theory-solving 0x0 basic# ; #8955
[mk-app] #8956 = #8955 #8954
[instance] 0x0 #8956
[attach-enode] #8956 0
[end-of-instance]
[mk-quant] #8953 user_u_tokenizer__lex__blank_between_0 1 #8943 #8954
[attach-var-names] #8953 (|i$| ; |Poly|)
[mk-app] #8950 and #3963 #8953
[mk-app] #8955 = #8940 #8950
[mk-quant] #8956 internal_u_tokenizer!lex.blank_between.?_definition 3 #8947 #8955
[attach-var-names] #8956 (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8957 not #8939
[mk-app] #8958 or #8957 #8956
[mk-app] #8959 => #8939 #8956
[inst-discovered] theory-solving 0x0 basic# ; #8959
[mk-app] #8960 = #8959 #8958
[instance] 0x0 #8960
[attach-enode] #8960 0
[end-of-instance]
[mk-app] #8959 fuel_bool_default #955
[mk-app] #8960 u_tokenizer!lex.rec%covers.? #63 #43 #32 #6585
[mk-app] #8961 u_tokenizer!lex.rec%covers.? #63 #43 #32 #6587
[mk-app] #8962 = #8960 #8961
[mk-app] #8963 pattern #8960
[mk-quant] #8964 internal_u_tokenizer!lex.covers._fuel_to_zero_definition 4 #8963 #8962
[attach-var-names] #8964 (|fuel%| ; |Fuel|) (|toks!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8965 has_type #32 #1544
[mk-app] #8966 and #8331 #4205 #8965
[mk-app] #8967 u_tokenizer!lex.rec%covers.? #63 #43 #32 #6593
[mk-app] #8968 vstd!seq.Seq.len.? #120 #1543 #32
[mk-app] #8969 = #8968 #334
[mk-app] #8970 I #8335
[mk-app] #8971 u_tokenizer!lex.blank_between.? #63 #43 #8970
[mk-app] #8972 vstd!seq.Seq.index.? #120 #1543 #32 #5644
[mk-app] #8973 %Poly%u_tokenizer!lex.Tok. #8972
[mk-app] #8974 Poly%u_tokenizer!lex.Tok. #8973
[mk-app] #8975 %Poly%u_tokenizer!lex.Tok. #8974
[mk-app] #8976 u_tokenizer!lex.Tok./Tok/s #8975
[mk-app] #8977 u_tokenizer!lex.Tok./Tok/e #8975
[mk-app] #8978 <= #664 #8976
[mk-app] #8979 < #8976 #8977
[mk-app] #8980 and #8978 #8979
[mk-app] #8981 <= #8977 #8335
[mk-app] #8982 and #8980 #8981
[mk-app] #8983 I #8976
[mk-app] #8984 u_tokenizer!lex.blank_between.? #63 #43 #8983
[mk-app] #8985 and #8982 #8984
[mk-app] #8986 I #8977
[mk-app] #8987 I #8968
[mk-app] #8988 vstd!seq.Seq.subrange.? #120 #1543 #32 #5102 #8987
[mk-app] #8989 u_tokenizer!lex.rec%covers.? #63 #8986 #8988 #6585
[mk-app] #8990 and #8985 #8989
[mk-app] #8991 if #8969 #8971 #8990
[mk-app] #8992 = #8967 #8991
[mk-app] #8993 => #8966 #8992
[mk-app] #8994 pattern #8967
[mk-quant] #8995 internal_u_tokenizer!lex.covers._fuel_to_body_definition 4 #8994 #8993
[attach-var-names] #8995 (|fuel%| ; |Fuel|) (|toks!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[attach-meaning] #363 arith (- 1)
[mk-app] #8996 * #363 #8976
[mk-app] #8997 + #664 #8996
[mk-app] #8998 <= #8997 #334
[inst-discovered] theory-solving 0x0 arith# ; #8978
[mk-app] #8999 = #8978 #8998
[instance] 0x0 #8999
[attach-enode] #8999 0
[end-of-instance]
[mk-app] #8999 <= #8977 #8976
[mk-app] #9000 not #8999
[inst-discovered] theory-solving 0x0 arith# ; #8979
[mk-app] #9001 = #8979 #9000
[instance] 0x0 #9001
[attach-enode] #9001 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #9001 + #8996 #8977
[attach-meaning] #363 arith (- 1)
[mk-app] #9002 * #363 #8977
[mk-app] #9003 + #8976 #9002
[mk-app] #9001 >= #9003 #334
[inst-discovered] theory-solving 0x0 arith# ; #8999
[mk-app] #9004 = #8999 #9001
[instance] 0x0 #9004
[attach-enode] #9004 0
[end-of-instance]
[mk-app] #9004 not #9001
[attach-meaning] #363 arith (- 1)
[mk-app] #9005 + #8352 #8977
[attach-meaning] #363 arith (- 1)
[mk-app] #9006 + #8335 #9002
[mk-app] #9005 >= #9006 #334
[inst-discovered] theory-solving 0x0 arith# ; #8981
[mk-app] #9007 = #8981 #9005
[instance] 0x0 #9007
[attach-enode] #9007 0
[end-of-instance]
[mk-app] #9007 and #8998 #9004 #9005 #8984 #8989
[mk-app] #9008 if #8969 #8971 #9007
[mk-app] #9009 = #8967 #9008
[mk-app] #9010 not #8966
[mk-app] #9011 or #9010 #9009
[mk-app] #9012 => #8966 #9009
[inst-discovered] theory-solving 0x0 basic# ; #9012
[mk-app] #9013 = #9012 #9011
[instance] 0x0 #9013
[attach-enode] #9013 0
[end-of-instance]
[mk-quant] #9012 internal_u_tokenizer!lex.covers._fuel_to_body_definition 4 #8994 #9011
[attach-var-names] #9012 (|fuel%| ; |Fuel|) (|toks!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8999 fuel_bool #955
[mk-app] #9000 and #8350 #3976 #1545
[mk-app] #9013 u_tokenizer!lex.covers.? #43 #32 #33
[mk-app] #9014 fuel_nat%u_tokenizer!lex.covers.
[mk-app] #9015 succ #9014
[mk-app] #9016 u_tokenizer!lex.rec%covers.? #43 #32 #33 #9015
[mk-app] #9017 = #9013 #9016
[mk-app] #9018 => #9000 #9017
[mk-app] #9019 pattern #9013
[mk-quant] #9020 internal_u_tokenizer!lex.covers.?_definition 3 #9019 #9018
[attach-var-names] #9020 (|toks!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #9021 => #8999 #9020
[mk-app] #9022 not #9000
[mk-app] #9023 or #9022 #9017
[inst-discovered] theory-solving 0x0 basic# ; #9018
[mk-app] #9024 = #9018 #9023
[instance] 0x0 #9024
[attach-enode] #9024 0
[end-of-instance]
[mk-quant] #9024 internal_u_tokenizer!lex.covers.?_definition 3 #9019 #9023
[attach-var-names] #9024 (|toks!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #9025 not #8999
[mk-app] #9026 or #9025 #9024
[mk-app] #9027 => #8999 #9024
[inst-discovered] theory-solving 0x0 basic# ; #9027
[mk-app] #9028 = #9027 #9026
[instance] 0x0 #9028
[attach-enode] #9028 0
[end-of-instance]
[mk-app] #9027 fuel_bool_default #956
[mk-app] #9028 fuel_bool #956
[mk-app] #9029 u_tokenizer!lex.with.? #32 #33
[mk-app] #9030 core!option.Option./Some/0 #120 #1543 #1705
[mk-app] #9031 %Poly%u_tokenizer!lex.Tok. #9030
[mk-app] #9032 Poly%u_tokenizer!lex.Tok. #9031
[mk-app] #9033 vstd!seq.Seq.push.? #120 #1543 #32 #9032
[mk-app] #9034 if #1773 #9033 #32
[mk-app] #9035 %Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #9034
[mk-app] #9036 = #9029 #9035
[mk-app] #9037 pattern #9029
[mk-quant] #9038 internal_u_tokenizer!lex.with.?_definition 2 #9037 #9036
[attach-var-names] #9038 (|x!| ; |Poly|) (|done!| ; |Poly|)
[mk-app] #9039 => #9028 #9038
[inst-discovered] theory-solving 0x0 datatype# ; #1773
[mk-app] #9040 = #1773 #1781
[instance] 0x0 #9040
[attach-enode] #9040 0
[end-of-instance]
[mk-app] #9040 if #1781 #9033 #32
[mk-app] #9041 %Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #9040
[mk-app] #9042 = #9029 #9041
[mk-quant] #9043 internal_u_tokenizer!lex.with.?_definition 2 #9037 #9042
[attach-var-names] #9043 (|x!| ; |Poly|) (|done!| ; |Poly|)
[mk-app] #9044 not #9028
[mk-app] #9045 or #9044 #9043
[mk-app] #9046 => #9028 #9043
[inst-discovered] theory-solving 0x0 basic# ; #9046
[mk-app] #9047 = #9046 #9045
[instance] 0x0 #9047
[attach-enode] #9047 0
[end-of-instance]
[mk-app] #9046 fuel_bool_default #958
[mk-app] #9047 fuel_bool #958
[mk-app] #9048 u_tokenizer!lex.ClassShim.it.? #120 #244 #33
[mk-app] #9049 = #9048 #33
[mk-app] #9050 pattern #9048
[mk-quant] #9051 internal_u_tokenizer!lex.impl&__2.it.?_definition 1 #9050 #9049
[attach-var-names] #9051 (|self!| ; |Poly|)
[mk-app] #9052 => #9047 #9051
[mk-app] #9053 not #9047
[mk-app] #9054 or #9053 #9051
[inst-discovered] theory-solving 0x0 basic# ; #9052
[mk-app] #9055 = #9052 #9054
[instance] 0x0 #9055
[attach-enode] #9055 0
[end-of-instance]
[mk-app] #9055 fuel_bool_default #959
[mk-app] #9056 fuel_bool #959
[mk-app] #9057 u_tokenizer!lex.Pushed.pushed.? #120 #1341 #120 #244 #43 #32 #33
[mk-app] #9058 vstd!view.View.view.? #120 #1341 #43
[mk-app] #9059 vstd!seq.Seq.push.? #120 #244 #9058 #32
[mk-app] #9060 = #6737 #9059
[mk-app] #9061 B #9060
[mk-app] #9062 = #9057 #9061
[mk-app] #9063 pattern #9057
[mk-quant] #9064 internal_u_tokenizer!lex.impl&__5.pushed.?_definition 3 #9063 #9062
[attach-var-names] #9064 (|new!| ; |Poly|) (|x!| ; |Poly|) (|old!| ; |Poly|)
[mk-app] #9065 => #9056 #9064
[mk-app] #9066 not #9056
[mk-app] #9067 or #9066 #9064
[inst-discovered] theory-solving 0x0 basic# ; #9065
[mk-app] #9068 = #9065 #9067
[instance] 0x0 #9068
[attach-enode] #9068 0
[end-of-instance]
[mk-app] #9068 fuel_bool_default #960
[mk-app] #9069 fuel_bool #960
[mk-app] #9070 TYPE%alloc!vec.Vec. #1216 #1217 #120 #1321
[mk-app] #9071 u_tokenizer!lex.Pushed.pushed.? #120 #9070 #1216 #1217 #43 #32 #33
[mk-app] #9072 vstd!view.View.view.? #120 #9070 #33
[mk-app] #9073 vstd!view.View.view.? #120 #9070 #43
[mk-app] #9074 vstd!seq.Seq.push.? #1216 #1217 #9073 #32
[mk-app] #9075 = #9072 #9074
[mk-app] #9076 B #9075
[mk-app] #9077 = #9071 #9076
[mk-app] #9078 => #3987 #9077
[mk-app] #9079 pattern #9071
[mk-quant] #9080 internal_u_tokenizer!lex.impl&__6.pushed.?_definition 5 #9079 #9078
[attach-var-names] #9080 (|new!| ; |Poly|) (|x!| ; |Poly|) (|old!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9081 => #9069 #9080
[mk-app] #9082 or #4424 #9077
[inst-discovered] theory-solving 0x0 basic# ; #9078
[mk-app] #9083 = #9078 #9082
[instance] 0x0 #9083
[attach-enode] #9083 0
[end-of-instance]
[mk-quant] #9083 internal_u_tokenizer!lex.impl&__6.pushed.?_definition 5 #9079 #9082
[attach-var-names] #9083 (|new!| ; |Poly|) (|x!| ; |Poly|) (|old!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9084 not #9069
[mk-app] #9085 or #9084 #9083
[mk-app] #9086 => #9069 #9083
[inst-discovered] theory-solving 0x0 basic# ; #9086
[mk-app] #9087 = #9086 #9085
[instance] 0x0 #9087
[attach-enode] #9087 0
[end-of-instance]
[mk-app] #9086 fuel_bool_default #961
[mk-app] #9087 fuel_bool #961
[mk-app] #9088 u_tokenizer!token.ASYMMETRIC_KEYWORD.?
[attach-meaning] #8599 arith 5164234424778956643145788548176495706731884672143565886676863453632589601799387769592491697743554572860685971569938296982623710029869977635113244625113728
[mk-app] #9089 = #9088 #8600
[mk-app] #9090 => #9087 #9089
[mk-app] #9091 not #9087
[mk-app] #9092 or #9091 #9089
[inst-discovered] theory-solving 0x0 basic# ; #9090
[mk-app] #9093 = #9090 #9092
[instance] 0x0 #9093
[attach-enode] #9093 0
[end-of-instance]
[mk-app] #9093 fuel_bool_default #962
[mk-app] #9094 fuel_bool #962
[mk-app] #9095 u_tokenizer!token.AS_KEYWORD.?
[attach-meaning] #8594 arith 6811291716301986273449368825017725935254033738261705405048833603991952835075045876383240132138908360443428847307048493261551666763585682461342176821404687
[mk-app] #9096 = #9095 #8595
[mk-app] #9097 => #9094 #9096
[mk-app] #9098 not #9094
[mk-app] #9099 or #9098 #9096
[inst-discovered] theory-solving 0x0 basic# ; #9097
[mk-app] #9100 = #9097 #9099
[instance] 0x0 #9100
[attach-enode] #9100 0
[end-of-instance]
[mk-app] #9100 fuel_bool_default #963
[mk-app] #9101 fuel_bool #963
[mk-app] #9102 u_tokenizer!token.BOOL_KEYWORD.?
[attach-meaning] #8605 arith 10650269090912363080359850505738289675188735774852904189261428785863736274598114048839047856747688690824240495531843253552061785505505400206141487473736073
[mk-app] #9103 = #9102 #8606
[mk-app] #9104 => #9101 #9103
[mk-app] #9105 not #9101
[mk-app] #9106 or #9105 #9103
[inst-discovered] theory-solving 0x0 basic# ; #9104
[mk-app] #9107 = #9104 #9106
[instance] 0x0 #9107
[attach-enode] #9107 0
[end-of-instance]
[mk-app] #9107 fuel_bool_default #964
[mk-app] #9108 fuel_bool #964
[mk-app] #9109 u_tokenizer!token.BYTES_KEYWORD.?
[attach-meaning] #8611 arith 5105887638678314480848168336806850687958787062265622898445340694234602236390603863235414402834031105135902117942261513337794104353991032628150134709706177
[mk-app] #9110 = #9109 #8612
[mk-app] #9111 => #9108 #9110
[mk-app] #9112 not #9108
[mk-app] #9113 or #9112 #9110
[inst-discovered] theory-solving 0x0 basic# ; #9111
[mk-app] #9114 = #9111 #9113
[instance] 0x0 #9114
[attach-enode] #9114 0
[end-of-instance]
[mk-app] #9114 fuel_bool_default #965
[mk-app] #9115 fuel_bool #965
[mk-app] #9116 u_tokenizer!token.CHOICE_KEYWORD.?
[attach-meaning] #8617 arith 11192778511484193028765142687621720742408521121490023881546372084705213895905044038347340404547399655826561775529715951563641001156599194473143646477662186
[mk-app] #9117 = #9116 #8618
[mk-app] #9118 => #9115 #9117
[mk-app] #9119 not #9115
[mk-app] #9120 or #9119 #9117
[inst-discovered] theory-solving 0x0 basic# ; #9118
[mk-app] #9121 = #9118 #9120
[instance] 0x0 #9121
[attach-enode] #9121 0
[end-of-instance]
[mk-app] #9121 fuel_bool_default #966
[mk-app] #9122 fuel_bool #966
[mk-app] #9123 u_tokenizer!token.DELETED_KEYWORD.?
[attach-meaning] #8623 arith 2421584016060735985948006570341685118118806429856450550403070349743870465728237500215504204107432830795435694955925438831275966424090868168810002548986392
[mk-app] #9124 = #9123 #8624
[mk-app] #9125 => #9122 #9124
[mk-app] #9126 not #9122
[mk-app] #9127 or #9126 #9124
[inst-discovered] theory-solving 0x0 basic# ; #9125
[mk-app] #9128 = #9125 #9127
[instance] 0x0 #9128
[attach-enode] #9128 0
[end-of-instance]
[mk-app] #9128 fuel_bool_default #967
[mk-app] #9129 fuel_bool #967
[mk-app] #9130 u_tokenizer!token.F64_KEYWORD.?
[attach-meaning] #8629 arith 437705789203423680797790722930838799105610583038276302307651652220950639473908161207421620867911906298101684766473885752551685411390429352830367048552233
[mk-app] #9131 = #9130 #8630
[mk-app] #9132 => #9129 #9131
[mk-app] #9133 not #9129
[mk-app] #9134 or #9133 #9131
[inst-discovered] theory-solving 0x0 basic# ; #9132
[mk-app] #9135 = #9132 #9134
[instance] 0x0 #9135
[attach-enode] #9135 0
[end-of-instance]
[mk-app] #9135 fuel_bool_default #968
[mk-app] #9136 fuel_bool #968
[mk-app] #9137 u_tokenizer!token.IMPORT_KEYWORD.?
[attach-meaning] #8635 arith 3774544017222719357770737970873441973400227560762037829785359692376757371973966408846100513293962631538293776711954863781859287274846417710916460010642595
[mk-app] #9138 = #9137 #8636
[mk-app] #9139 => #9136 #9138
[mk-app] #9140 not #9136
[mk-app] #9141 or #9140 #9138
[inst-discovered] theory-solving 0x0 basic# ; #9139
[mk-app] #9142 = #9139 #9141
[instance] 0x0 #9142
[attach-enode] #9142 0
[end-of-instance]
[mk-app] #9142 fuel_bool_default #969
[mk-app] #9143 fuel_bool #969
[mk-app] #9144 u_tokenizer!token.OPTIONAL_KEYWORD.?
[attach-meaning] #8641 arith 8576368709235952921866527600441283951249934585589585992134915527933839129666426568333803825100135590710684835393508312524230563313806264522270344399913559
[mk-app] #9145 = #9144 #8642
[mk-app] #9146 => #9143 #9145
[mk-app] #9147 not #9143
[mk-app] #9148 or #9147 #9145
[inst-discovered] theory-solving 0x0 basic# ; #9146
[mk-app] #9149 = #9146 #9148
[instance] 0x0 #9149
[attach-enode] #9149 0
[end-of-instance]
[mk-app] #9149 fuel_bool_default #970
[mk-app] #9150 fuel_bool #970
[mk-app] #9151 u_tokenizer!token.S64_KEYWORD.?
[attach-meaning] #8647 arith 12676750787678767721759240923535296269130005999844153164199993116729131540036410756167942069024003803264485832556406300123954291497518853914234917162653093
[mk-app] #9152 = #9151 #8648
[mk-app] #9153 => #9150 #9152
[mk-app] #9154 not #9150
[mk-app] #9155 or #9154 #9152
[inst-discovered] theory-solving 0x0 basic# ; #9153
[mk-app] #9156 = #9153 #9155
[instance] 0x0 #9156
[attach-enode] #9156 0
[end-of-instance]
[mk-app] #9156 fuel_bool_default #971
[mk-app] #9157 fuel_bool #971
[mk-app] #9158 u_tokenizer!token.STRING_KEYWORD.?
[attach-meaning] #8653 arith 3089422842641254323335104226012188677499404212915572578287259788560591211843038870693047687656856645863923505575617102584737619183001383287417537866789667
[mk-app] #9159 = #9158 #8654
[mk-app] #9160 => #9157 #9159
[mk-app] #9161 not #9157
[mk-app] #9162 or #9161 #9159
[inst-discovered] theory-solving 0x0 basic# ; #9160
[mk-app] #9163 = #9160 #9162
[instance] 0x0 #9163
[attach-enode] #9163 0
[end-of-instance]
[mk-app] #9163 fuel_bool_default #972
[mk-app] #9164 fuel_bool #972
[mk-app] #9165 u_tokenizer!token.STRUCT_KEYWORD.?
[attach-meaning] #8659 arith 10018584850442573698881265044120265269746730955840167528992295727334021820122060141260327221524956799080716255854633759351348003885893074870872133977386655
[mk-app] #9166 = #9165 #8660
[mk-app] #9167 => #9164 #9166
[mk-app] #9168 not #9164
[mk-app] #9169 or #9168 #9166
[inst-discovered] theory-solving 0x0 basic# ; #9167
[mk-app] #9170 = #9167 #9169
[instance] 0x0 #9170
[attach-enode] #9170 0
[end-of-instance]
[mk-app] #9170 fuel_bool_default #973
[mk-app] #9171 fuel_bool #973
[mk-app] #9172 u_tokenizer!token.U64_KEYWORD.?
[attach-meaning] #8665 arith 585056779608829513232089147029421323016334775798910742041276606380268967534056717751494396281452102904690757758734837744256458363624679276138205901621538
[mk-app] #9173 = #9172 #8666
[mk-app] #9174 => #9171 #9173
[mk-app] #9175 not #9171
[mk-app] #9176 or #9175 #9173
[inst-discovered] theory-solving 0x0 basic# ; #9174
[mk-app] #9177 = #9174 #9176
[instance] 0x0 #9177
[attach-enode] #9177 0
[end-of-instance]
[mk-app] #9177 fuel_bool_default #974
[mk-app] #9178 fuel_bool #974
[mk-app] #9179 u_tokenizer!token.UNIT_KEYWORD.?
[attach-meaning] #8671 arith 955844015317323579700338550676938242665749600925367207059062839204807903194418568054928046985407657908369913843753380893498430272960093047142334305550534
[mk-app] #9180 = #9179 #8672
[mk-app] #9181 => #9178 #9180
[mk-app] #9182 not #9178
[mk-app] #9183 or #9182 #9180
[inst-discovered] theory-solving 0x0 basic# ; #9181
[mk-app] #9184 = #9181 #9183
[instance] 0x0 #9184
[attach-enode] #9184 0
[end-of-instance]
[mk-app] #9184 fuel_bool_default #975
[mk-app] #9185 fuel_bool #975
[mk-app] #9186 u_tokenizer!tokenizer.kind_is.? #32 #33
[mk-app] #9187 %Poly%u_tokenizer!token.Variant. #32
[mk-app] #9188 is-u_tokenizer!token.Variant./As #9187
[attach-meaning] #8594 arith 6811291716301986273449368825017725935254033738261705405048833603991952835075045876383240132138908360443428847307048493261551666763585682461342176821404687
[mk-app] #9189 %Poly%vstd!seq.Seq<char.>. #8597
[mk-app] #9190 u_tokenizer!lex.Kind./Word #9189
[mk-app] #9191 = #2164 #9190
[mk-app] #9192 is-u_tokenizer!token.Variant./Asymmetric #9187
[attach-meaning] #8599 arith 5164234424778956643145788548176495706731884672143565886676863453632589601799387769592491697743554572860685971569938296982623710029869977635113244625113728
[mk-app] #9193 %Poly%vstd!seq.Seq<char.>. #8602
[mk-app] #9194 u_tokenizer!lex.Kind./Word #9193
[mk-app] #9195 = #2164 #9194
[mk-app] #9196 is-u_tokenizer!token.Variant./Bool #9187
[attach-meaning] #8605 arith 10650269090912363080359850505738289675188735774852904189261428785863736274598114048839047856747688690824240495531843253552061785505505400206141487473736073
[mk-app] #9197 %Poly%vstd!seq.Seq<char.>. #8608
[mk-app] #9198 u_tokenizer!lex.Kind./Word #9197
[mk-app] #9199 = #2164 #9198
[mk-app] #9200 is-u_tokenizer!token.Variant./Bytes #9187
[attach-meaning] #8611 arith 5105887638678314480848168336806850687958787062265622898445340694234602236390603863235414402834031105135902117942261513337794104353991032628150134709706177
[mk-app] #9201 %Poly%vstd!seq.Seq<char.>. #8614
[mk-app] #9202 u_tokenizer!lex.Kind./Word #9201
[mk-app] #9203 = #2164 #9202
[mk-app] #9204 is-u_tokenizer!token.Variant./Choice #9187
[attach-meaning] #8617 arith 11192778511484193028765142687621720742408521121490023881546372084705213895905044038347340404547399655826561775529715951563641001156599194473143646477662186
[mk-app] #9205 %Poly%vstd!seq.Seq<char.>. #8620
[mk-app] #9206 u_tokenizer!lex.Kind./Word #9205
[mk-app] #9207 = #2164 #9206
[mk-app] #9208 is-u_tokenizer!token.Variant./Colon #9187
[attach-meaning] #7005 arith 58
[mk-app] #9209 I #7005
[mk-app] #9210 %I #9209
[mk-app] #9211 u_tokenizer!lex.Kind./Symbol #9210
[mk-app] #9212 = #2164 #9211
[mk-app] #9213 is-u_tokenizer!token.Variant./Comment #9187
[mk-app] #9214 u_tokenizer!token.Variant./Comment/0 #9187
[mk-app] #9215 Poly%alloc!vec.Vec<alloc!string.String./alloc!alloc.Global.>. #9214
[mk-app] #9216 vstd!view.View.view.? #120 #1361 #9215
[mk-app] #9217 u_tokenizer!text.sviews.? #9216
[mk-app] #9218 Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #9217
[mk-app] #9219 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #9218
[mk-app] #9220 u_tokenizer!lex.Kind./Comment #9219
[mk-app] #9221 = #2164 #9220
[mk-app] #9222 is-u_tokenizer!token.Variant./Deleted #9187
[attach-meaning] #8623 arith 2421584016060735985948006570341685118118806429856450550403070349743870465728237500215504204107432830795435694955925438831275966424090868168810002548986392
[mk-app] #9223 %Poly%vstd!seq.Seq<char.>. #8626
[mk-app] #9224 u_tokenizer!lex.Kind./Word #9223
[mk-app] #9225 = #2164 #9224
[mk-app] #9226 is-u_tokenizer!token.Variant./Dot #9187
[attach-meaning] #7007 arith 46
[mk-app] #9227 I #7007
[mk-app] #9228 %I #9227
[mk-app] #9229 u_tokenizer!lex.Kind./Symbol #9228
[mk-app] #9230 = #2164 #9229
[mk-app] #9231 is-u_tokenizer!token.Variant./Equals #9187
[attach-meaning] #7010 arith 61
[mk-app] #9232 I #7010
[mk-app] #9233 %I #9232
[mk-app] #9234 u_tokenizer!lex.Kind./Symbol #9233
[mk-app] #9235 = #2164 #9234
[mk-app] #9236 is-u_tokenizer!token.Variant./F64 #9187
[attach-meaning] #8629 arith 437705789203423680797790722930838799105610583038276302307651652220950639473908161207421620867911906298101684766473885752551685411390429352830367048552233
[mk-app] #9237 %Poly%vstd!seq.Seq<char.>. #8632
[mk-app] #9238 u_tokenizer!lex.Kind./Word #9237
[mk-app] #9239 = #2164 #9238
[mk-app] #9240 is-u_tokenizer!token.Variant./Identifier #9187
[mk-app] #9241 u_tokenizer!token.Variant./Identifier/0 #9187
[mk-app] #9242 Poly%u_tokenizer!identifier.Identifier. #9241
[mk-app] #9243 u_tokenizer!identifier.impl&%0.name.? #9242
[mk-app] #9244 Poly%vstd!seq.Seq<char.>. #9243
[mk-app] #9245 %Poly%vstd!seq.Seq<char.>. #9244
[mk-app] #9246 u_tokenizer!lex.Kind./Name #9245
[mk-app] #9247 = #2164 #9246
[mk-app] #9248 is-u_tokenizer!token.Variant./Import #9187
[attach-meaning] #8635 arith 3774544017222719357770737970873441973400227560762037829785359692376757371973966408846100513293962631538293776711954863781859287274846417710916460010642595
[mk-app] #9249 %Poly%vstd!seq.Seq<char.>. #8638
[mk-app] #9250 u_tokenizer!lex.Kind./Word #9249
[mk-app] #9251 = #2164 #9250
[mk-app] #9252 is-u_tokenizer!token.Variant./Integer #9187
[mk-app] #9253 u_tokenizer!token.Variant./Integer/0 #9187
[mk-app] #9254 I #9253
[mk-app] #9255 %I #9254
[mk-app] #9256 u_tokenizer!lex.Kind./Int #9255
[mk-app] #9257 = #2164 #9256
[mk-app] #9258 is-u_tokenizer!token.Variant./LeftCurly #9187
[attach-meaning] #7013 arith 123
[mk-app] #9259 I #7013
[mk-app] #9260 %I #9259
[mk-app] #9261 u_tokenizer!lex.Kind./Symbol #9260
[mk-app] #9262 = #2164 #9261
[mk-app] #9263 is-u_tokenizer!token.Variant./LeftSquare #9187
[attach-meaning] #7016 arith 91
[mk-app] #9264 I #7016
[mk-app] #9265 %I #9264
[mk-app] #9266 u_tokenizer!lex.Kind./Symbol #9265
[mk-app] #9267 = #2164 #9266
[mk-app] #9268 is-u_tokenizer!token.Variant./Optional #9187
[attach-meaning] #8641 arith 8576368709235952921866527600441283951249934585589585992134915527933839129666426568333803825100135590710684835393508312524230563313806264522270344399913559
[mk-app] #9269 %Poly%vstd!seq.Seq<char.>. #8644
[mk-app] #9270 u_tokenizer!lex.Kind./Word #9269
[mk-app] #9271 = #2164 #9270
[mk-app] #9272 is-u_tokenizer!token.Variant./Path #9187
[mk-app] #9273 u_tokenizer!token.Variant./Path/0 #9187
[mk-app] #9274 Poly%u_tokenizer!shim.PathBuf. #9273
[mk-app] #9275 u_tokenizer!lex.path_text.? #9274
[mk-app] #9276 Poly%vstd!seq.Seq<char.>. #9275
[mk-app] #9277 %Poly%vstd!seq.Seq<char.>. #9276
[mk-app] #9278 u_tokenizer!lex.Kind./Path #9277
[mk-app] #9279 = #2164 #9278
[mk-app] #9280 is-u_tokenizer!token.Variant./RightCurly #9187
[attach-meaning] #7019 arith 125
[mk-app] #9281 I #7019
[mk-app] #9282 %I #9281
[mk-app] #9283 u_tokenizer!lex.Kind./Symbol #9282
[mk-app] #9284 = #2164 #9283
[mk-app] #9285 is-u_tokenizer!token.Variant./RightSquare #9187
[attach-meaning] #7022 arith 93
[mk-app] #9286 I #7022
[mk-app] #9287 %I #9286
[mk-app] #9288 u_tokenizer!lex.Kind./Symbol #9287
[mk-app] #9289 = #2164 #9288
[mk-app] #9290 is-u_tokenizer!token.Variant./S64 #9187
[attach-meaning] #8647 arith 12676750787678767721759240923535296269130005999844153164199993116729131540036410756167942069024003803264485832556406300123954291497518853914234917162653093
[mk-app] #9291 %Poly%vstd!seq.Seq<char.>. #8650
[mk-app] #9292 u_tokenizer!lex.Kind./Word #9291
[mk-app] #9293 = #2164 #9292
[mk-app] #9294 is-u_tokenizer!token.Variant./String #9187
[attach-meaning] #8653 arith 3089422842641254323335104226012188677499404212915572578287259788560591211843038870693047687656856645863923505575617102584737619183001383287417537866789667
[mk-app] #9295 %Poly%vstd!seq.Seq<char.>. #8656
[mk-app] #9296 u_tokenizer!lex.Kind./Word #9295
[mk-app] #9297 = #2164 #9296
[mk-app] #9298 is-u_tokenizer!token.Variant./Struct #9187
[attach-meaning] #8659 arith 10018584850442573698881265044120265269746730955840167528992295727334021820122060141260327221524956799080716255854633759351348003885893074870872133977386655
[mk-app] #9299 %Poly%vstd!seq.Seq<char.>. #8662
[mk-app] #9300 u_tokenizer!lex.Kind./Word #9299
[mk-app] #9301 = #2164 #9300
[mk-app] #9302 is-u_tokenizer!token.Variant./U64 #9187
[attach-meaning] #8665 arith 585056779608829513232089147029421323016334775798910742041276606380268967534056717751494396281452102904690757758734837744256458363624679276138205901621538
[mk-app] #9303 %Poly%vstd!seq.Seq<char.>. #8668
[mk-app] #9304 u_tokenizer!lex.Kind./Word #9303
[mk-app] #9305 = #2164 #9304
[attach-meaning] #8671 arith 955844015317323579700338550676938242665749600925367207059062839204807903194418568054928046985407657908369913843753380893498430272960093047142334305550534
[mk-app] #9306 %Poly%vstd!seq.Seq<char.>. #8674
[mk-app] #9307 u_tokenizer!lex.Kind./Word #9306
[mk-app] #9308 = #2164 #9307
[mk-app] #9309 if #9302 #9305 #9308
[mk-app] #9310 if #9298 #9301 #9309
[mk-app] #9311 if #9294 #9297 #9310
[mk-app] #9312 if #9290 #9293 #9311
[mk-app] #9313 if #9285 #9289 #9312
[mk-app] #9314 if #9280 #9284 #9313
[mk-app] #9315 if #9272 #9279 #9314
[mk-app] #9316 if #9268 #9271 #9315
[mk-app] #9317 if #9263 #9267 #9316
[mk-app] #9318 if #9258 #9262 #9317
[mk-app] #9319 if #9252 #9257 #9318
[mk-app] #9320 if #9248 #9251 #9319
[mk-app] #9321 if #9240 #9247 #9320
[mk-app] #9322 if #9236 #9239 #9321
[mk-app] #9323 if #9231 #9235 #9322
[mk-app] #9324 if #9226 #9230 #9323
[mk-app] #9325 if #9222 #9225 #9324
[mk-app] #9326 if #9213 #9221 #9325
[mk-app] #9327 if #9208 #9212 #9326
[mk-app] #9328 if #9204 #9207 #9327
[mk-app] #9329 if #9200 #9203 #9328
[mk-app] #9330 if #9196 #9199 #9329
[mk-app] #9331 if #9192 #9195 #9330
[mk-app] #9332 if #9188 #9191 #9331
[mk-app] #9333 = #9186 #9332
[mk-app] #9334 pattern #9186
[mk-quant] #9335 internal_u_tokenizer!tokenizer.kind_is.?_definition 2 #9334 #9333
[attach-var-names] #9335 (|k!| ; |Poly|) (|v!| ; |Poly|)
[mk-app] #9336 => #9185 #9335
[mk-app] #9337 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9188
[mk-app] #9338 = #9188 #9337
[instance] 0x0 #9338
[attach-enode] #9338 0
[end-of-instance]
[mk-app] #9338 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9192
[mk-app] #9339 = #9192 #9338
[instance] 0x0 #9339
[attach-enode] #9339 0
[end-of-instance]
[mk-app] #9339 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9196
[mk-app] #9340 = #9196 #9339
[instance] 0x0 #9340
[attach-enode] #9340 0
[end-of-instance]
[mk-app] #9340 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9200
[mk-app] #9341 = #9200 #9340
[instance] 0x0 #9341
[attach-enode] #9341 0
[end-of-instance]
[mk-app] #9341 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9204
[mk-app] #9342 = #9204 #9341
[instance] 0x0 #9342
[attach-enode] #9342 0
[end-of-instance]
[mk-app] #9342 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9208
[mk-app] #9343 = #9208 #9342
[instance] 0x0 #9343
[attach-enode] #9343 0
[end-of-instance]
[mk-app] #9343 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9213
[mk-app] #9344 = #9213 #9343
[instance] 0x0 #9344
[attach-enode] #9344 0
[end-of-instance]
[mk-app] #9344 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9222
[mk-app] #9345 = #9222 #9344
[instance] 0x0 #9345
[attach-enode] #9345 0
[end-of-instance]
[mk-app] #9345 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9226
[mk-app] #9346 = #9226 #9345
[instance] 0x0 #9346
[attach-enode] #9346 0
[end-of-instance]
[mk-app] #9346 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9231
[mk-app] #9347 = #9231 #9346
[instance] 0x0 #9347
[attach-enode] #9347 0
[end-of-instance]
[mk-app] #9347 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9236
[mk-app] #9348 = #9236 #9347
[instance] 0x0 #9348
[attach-enode] #9348 0
[end-of-instance]
[mk-app] #9348 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9240
[mk-app] #9349 = #9240 #9348
[instance] 0x0 #9349
[attach-enode] #9349 0
[end-of-instance]
[mk-app] #9349 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9248
[mk-app] #9350 = #9248 #9349
[instance] 0x0 #9350
[attach-enode] #9350 0
[end-of-instance]
[mk-app] #9350 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9252
[mk-app] #9351 = #9252 #9350
[instance] 0x0 #9351
[attach-enode] #9351 0
[end-of-instance]
[mk-app] #9351 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9258
[mk-app] #9352 = #9258 #9351
[instance] 0x0 #9352
[attach-enode] #9352 0
[end-of-instance]
[mk-app] #9352 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9263
[mk-app] #9353 = #9263 #9352
[instance] 0x0 #9353
[attach-enode] #9353 0
[end-of-instance]
[mk-app] #9353 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9268
[mk-app] #9354 = #9268 #9353
[instance] 0x0 #9354
[attach-enode] #9354 0
[end-of-instance]
[mk-app] #9354 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9272
[mk-app] #9355 = #9272 #9354
[instance] 0x0 #9355
[attach-enode] #9355 0
[end-of-instance]
[mk-app] #9355 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9280
[mk-app] #9356 = #9280 #9355
[instance] 0x0 #9356
[attach-enode] #9356 0
[end-of-instance]
[mk-app] #9356 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9285
[mk-app] #9357 = #9285 #9356
[instance] 0x0 #9357
[attach-enode] #9357 0
[end-of-instance]
[mk-app] #9357 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9290
[mk-app] #9358 = #9290 #9357
[instance] 0x0 #9358
[attach-enode] #9358 0
[end-of-instance]
[mk-app] #9358 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9294
[mk-app] #9359 = #9294 #9358
[instance] 0x0 #9359
[attach-enode] #9359 0
[end-of-instance]
[mk-app] #9359 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9298
[mk-app] #9360 = #9298 #9359
[instance] 0x0 #9360
[attach-enode] #9360 0
[end-of-instance]
[mk-app] #9360 is #9187
[inst-discovered] theory-solving 0x0 datatype# ; #9302
[mk-app] #9361 = #9302 #9360
[instance] 0x0 #9361
[attach-enode] #9361 0
[end-of-instance]
[mk-app] #9361 if #9360 #9305 #9308
[mk-app] #9362 if #9359 #9301 #9361
[mk-app] #9363 if #9358 #9297 #9362
[mk-app] #9364 if #9357 #9293 #9363
[mk-app] #9365 if #9356 #9289 #9364
[mk-app] #9366 if #9355 #9284 #9365
[mk-app] #9367 if #9354 #9279 #9366
[mk-app] #9368 if #9353 #9271 #9367
[mk-app] #9369 if #9352 #9267 #9368
[mk-app] #9370 if #9351 #9262 #9369
[mk-app] #9371 if #9350 #9257 #9370
[mk-app] #9372 if #9349 #9251 #9371
[mk-app] #9373 if #9348 #9247 #9372
[mk-app] #9374 if #9347 #9239 #9373
[mk-app] #9375 if #9346 #9235 #9374
[mk-app] #9376 if #9345 #9230 #9375
[mk-app] #9377 if #9344 #9225 #9376
[mk-app] #9378 if #9343 #9221 #9377
[mk-app] #9379 if #9342 #9212 #9378
[mk-app] #9380 if #9341 #9207 #9379
[mk-app] #9381 if #9340 #9203 #9380
[mk-app] #9382 if #9339 #9199 #9381
[mk-app] #9383 if #9338 #9195 #9382
[mk-app] #9384 if #9337 #9191 #9383
[mk-app] #9385 = #9186 #9384
[mk-quant] #9386 internal_u_tokenizer!tokenizer.kind_is.?_definition 2 #9334 #9385
[attach-var-names] #9386 (|k!| ; |Poly|) (|v!| ; |Poly|)
[mk-app] #9387 not #9185
[mk-app] #9388 or #9387 #9386
[mk-app] #9389 => #9185 #9386
[inst-discovered] theory-solving 0x0 basic# ; #9389
[mk-app] #9390 = #9389 #9388
[instance] 0x0 #9390
[attach-enode] #9390 0
[end-of-instance]
[mk-app] #9389 fuel_bool_default #976
[mk-app] #9390 fuel_bool #976
[mk-app] #9391 u_tokenizer!tokenizer.is_tok.? #43 #32 #33
[mk-app] #9392 %Poly%u_tokenizer!token.Token. #32
[mk-app] #9393 u_tokenizer!token.Token./Token/source_range #9392
[mk-app] #9394 Poly%u_tokenizer!error.SourceRange. #9393
[mk-app] #9395 %Poly%u_tokenizer!error.SourceRange. #9394
[mk-app] #9396 u_tokenizer!error.SourceRange./SourceRange/start #9395
[mk-app] #9397 u_tokenizer!lex.Tok./Tok/s #2250
[mk-app] #9398 I #9397
[mk-app] #9399 u_tokenizer!text.bpos.? #43 #9398
[mk-app] #9400 = #9396 #9399
[mk-app] #9401 u_tokenizer!error.SourceRange./SourceRange/end #9395
[mk-app] #9402 u_tokenizer!lex.Tok./Tok/e #2250
[mk-app] #9403 I #9402
[mk-app] #9404 u_tokenizer!text.bpos.? #43 #9403
[mk-app] #9405 = #9401 #9404
[mk-app] #9406 and #9400 #9405
[mk-app] #9407 u_tokenizer!token.Token./Token/variant #9392
[mk-app] #9408 Poly%u_tokenizer!token.Variant. #9407
[mk-app] #9409 u_tokenizer!tokenizer.kind_is.? #9408 #2285
[mk-app] #9410 and #9406 #9409
[mk-app] #9411 = #9391 #9410
[mk-app] #9412 pattern #9391
[mk-quant] #9413 internal_u_tokenizer!tokenizer.is_tok.?_definition 3 #9412 #9411
[attach-var-names] #9413 (|k!| ; |Poly|) (|x!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #9414 => #9390 #9413
[mk-app] #9415 and #9400 #9405 #9409
[mk-app] #9416 = #9391 #9415
[mk-quant] #9417 internal_u_tokenizer!tokenizer.is_tok.?_definition 3 #9412 #9416
[attach-var-names] #9417 (|k!| ; |Poly|) (|x!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #9418 not #9390
[mk-app] #9419 or #9418 #9417
[mk-app] #9420 => #9390 #9417
[inst-discovered] theory-solving 0x0 basic# ; #9420
[mk-app] #9421 = #9420 #9419
[instance] 0x0 #9421
[attach-enode] #9421 0
[end-of-instance]
[mk-app] #9420 fuel_bool_default #977
[mk-app] #9421 fuel_bool #977
[mk-app] #9422 u_tokenizer!tokenizer.are_toks.? #43 #32 #33
[mk-app] #9423 vstd!seq.Seq.len.? #120 #1402 #32
[mk-app] #9424 vstd!seq.Seq.len.? #120 #1543 #33
[mk-app] #9425 = #9423 #9424
[mk-app] #9426 vstd!seq.Seq.len.? #120 #1402 #43
[mk-app] #9427 < #186 #9426
[mk-app] #9428 and #510 #9427
[mk-app] #9429 vstd!seq.Seq.index.? #120 #1402 #43 #33
[mk-app] #9430 vstd!seq.Seq.index.? #120 #1543 #32 #33
[mk-app] #9431 u_tokenizer!tokenizer.is_tok.? #63 #9429 #9430
[mk-app] #9432 => #9428 #9431
[mk-app] #9433 => #185 #9432
[mk-app] #9434 pattern #9429
[mk-quant] #9435 user_u_tokenizer__tokenizer__are_toks_0 1 #9434 #9433
[attach-var-names] #9435 (|i$| ; |Poly|)
[mk-app] #9436 and #9425 #9435
[mk-app] #9437 = #9422 #9436
[mk-app] #9438 pattern #9422
[mk-quant] #9439 internal_u_tokenizer!tokenizer.are_toks.?_definition 3 #9438 #9437
[attach-var-names] #9439 (|ks!| ; |Poly|) (|xs!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #9440 => #9421 #9439
[attach-meaning] #363 arith (- 1)
[mk-app] #9441 * #363 #186
[inst-discovered] theory-solving 0x0 arith# ; #510
[mk-app] #9441 = #510 #514
[instance] 0x0 #9441
[attach-enode] #9441 0
[end-of-instance]
[mk-app] #9441 <= #9426 #186
[mk-app] #9442 not #9441
[inst-discovered] theory-solving 0x0 arith# ; #9427
[mk-app] #9443 = #9427 #9442
[instance] 0x0 #9443
[attach-enode] #9443 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #9443 * #363 #186
[mk-app] #9444 + #9443 #9426
[attach-meaning] #363 arith (- 1)
[mk-app] #9445 * #363 #9426
[mk-app] #9446 + #186 #9445
[mk-app] #9443 >= #9446 #334
[inst-discovered] theory-solving 0x0 arith# ; #9441
[mk-app] #9444 = #9441 #9443
[instance] 0x0 #9444
[attach-enode] #9444 0
[end-of-instance]
[mk-app] #9444 not #9443
[mk-app] #9447 and #514 #9444
[mk-app] #9448 not #9447
[mk-app] #9449 or #9448 #9431
[mk-app] #9450 => #9447 #9431
[inst-discovered] theory-solving 0x0 basic# ; #9450
[mk-app] #9451 = #9450 #9449
[instance] 0x0 #9451
[attach-enode] #9451 0
[end-of-instance]
[mk-app] #9450 or #192 #9448 #9431
[mk-app] #9451 => #185 #9449
[inst-discovered] theory-solving 0x0 basic# ; #9451
[mk-app] #9452 = #9451 #9450
[instance] 0x0 #9452
[attach-enode] #9452 0
[end-of-instance]
[mk-quant] #9449 user_u_tokenizer__tokenizer__are_toks_0 1 #9434 #9450
[attach-var-names] #9449 (|i$| ; |Poly|)
[mk-app] #9441 and #9425 #9449
[mk-app] #9442 = #9422 #9441
[mk-quant] #9451 internal_u_tokenizer!tokenizer.are_toks.?_definition 3 #9438 #9442
[attach-var-names] #9451 (|ks!| ; |Poly|) (|xs!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #9452 not #9421
[mk-app] #9453 or #9452 #9451
[mk-app] #9454 => #9421 #9451
[inst-discovered] theory-solving 0x0 basic# ; #9454
[mk-app] #9455 = #9454 #9453
[instance] 0x0 #9455
[attach-enode] #9455 0
[end-of-instance]
[mk-app] #9454 fuel_bool #978
[mk-app] #9455 u_tokenizer!tokenizer.progress.? #4247 #63 #43 #32 #33
[mk-app] #9456 %B #32
[mk-app] #9457 u_tokenizer!lex.lexed.? #4247 #5644
[mk-app] #9458 Poly%u_tokenizer!lex.Lexed. #9457
[mk-app] #9459 %Poly%u_tokenizer!lex.Lexed. #9458
[mk-app] #9460 u_tokenizer!lex.Lexed./Lexed/ok #9459
[mk-app] #9461 not #9460
[mk-app] #9462 u_tokenizer!tokenizer.are_toks.? #4247 #43 #33
[mk-app] #9463 u_tokenizer!lex.lexed.? #4247 #63
[mk-app] #9464 Poly%u_tokenizer!lex.Lexed. #9463
[mk-app] #9465 %Poly%u_tokenizer!lex.Lexed. #9464
[mk-app] #9466 u_tokenizer!lex.Lexed./Lexed/toks #9465
[mk-app] #9467 Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #9466
[mk-app] #9468 vstd!seq.Seq.add.? #120 #1543 #33 #9467
[mk-app] #9469 %Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #9468
[mk-app] #9470 u_tokenizer!lex.Lexed./Lexed/toks #9459
[mk-app] #9471 = #9469 #9470
[mk-app] #9472 and #9462 #9471
[mk-app] #9473 u_tokenizer!lex.Lexed./Lexed/ok #9465
[mk-app] #9474 = #9473 #9460
[mk-app] #9475 and #9472 #9474
[mk-app] #9476 if #9456 #9461 #9475
[mk-app] #9477 = #9455 #9476
[mk-app] #9478 pattern #9455
[mk-quant] #9479 internal_u_tokenizer!tokenizer.progress.?_definition 5 #9478 #9477
[attach-var-names] #9479 (|done!| ; |Poly|) (|wrong!| ; |Poly|) (|xs!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #9480 => #9454 #9479
[mk-app] #9481 and #9462 #9471 #9474
[mk-app] #9482 if #9456 #9461 #9481
[mk-app] #9483 = #9455 #9482
[mk-quant] #9484 internal_u_tokenizer!tokenizer.progress.?_definition 5 #9478 #9483
[attach-var-names] #9484 (|done!| ; |Poly|) (|wrong!| ; |Poly|) (|xs!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #9485 not #9454
[mk-app] #9486 or #9485 #9484
[mk-app] #9487 => #9454 #9484
[inst-discovered] theory-solving 0x0 basic# ; #9487
[mk-app] #9488 = #9487 #9486
[instance] 0x0 #9488
[attach-enode] #9488 0
[end-of-instance]
[mk-app] #9487 fuel_bool_default #979
[mk-app] #9488 fuel_bool #979
[mk-app] #9489 u_tokenizer!tokenizer.RAW_IDENTIFIER_SIGIL.?
[attach-meaning] #7071 arith 36
[mk-app] #9490 = #9489 #7071
[mk-app] #9491 => #9488 #9490
[mk-app] #9492 not #9488
[mk-app] #9493 or #9492 #9490
[inst-discovered] theory-solving 0x0 basic# ; #9491
[mk-app] #9494 = #9491 #9493
[instance] 0x0 #9494
[attach-enode] #9494 0
[end-of-instance]
[mk-app] #9494 charInv #9489
[mk-app] #9495 tr_bound%vstd!view.View. #3173 #3163
[mk-app] #9496 pattern #9495
[mk-quant] #9497 internal_vstd__raw_ptr__impl&__3_trait_impl_definition 2 #9496 #9495
[attach-var-names] #9497 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9498 tr_bound%vstd!view.View. #3206 #45
[mk-app] #9499 => #2983 #9498
[mk-app] #9500 pattern #9498
[mk-quant] #9501 internal_vstd__view__impl&__0_trait_impl_definition 2 #9500 #9499
[attach-var-names] #9501 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9502 or #2989 #9498
[inst-discovered] theory-solving 0x0 basic# ; #9499
[mk-app] #9503 = #9499 #9502
[instance] 0x0 #9503
[attach-enode] #9503 0
[end-of-instance]
[mk-quant] #9503 internal_vstd__view__impl&__0_trait_impl_definition 2 #9500 #9502
[attach-var-names] #9503 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9504 tr_bound%vstd!view.View. #3222 #45
[mk-app] #9505 => #2983 #9504
[mk-app] #9506 pattern #9504
[mk-quant] #9507 internal_vstd__view__impl&__2_trait_impl_definition 2 #9506 #9505
[attach-var-names] #9507 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9508 or #2989 #9504
[inst-discovered] theory-solving 0x0 basic# ; #9505
[mk-app] #9509 = #9505 #9508
[instance] 0x0 #9509
[attach-enode] #9509 0
[end-of-instance]
[mk-quant] #9509 internal_vstd__view__impl&__2_trait_impl_definition 2 #9506 #9508
[attach-var-names] #9509 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9510 tr_bound%vstd!view.View. #3238 #45
[mk-app] #9511 => #3237 #9510
[mk-app] #9512 pattern #9510
[mk-quant] #9513 internal_vstd__view__impl&__4_trait_impl_definition 2 #9512 #9511
[attach-var-names] #9513 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9514 or #3244 #9510
[inst-discovered] theory-solving 0x0 basic# ; #9511
[mk-app] #9515 = #9511 #9514
[instance] 0x0 #9515
[attach-enode] #9515 0
[end-of-instance]
[mk-quant] #9515 internal_vstd__view__impl&__4_trait_impl_definition 2 #9512 #9514
[attach-var-names] #9515 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9516 tr_bound%vstd!view.View. #3254 #45
[mk-app] #9517 => #3237 #9516
[mk-app] #9518 pattern #9516
[mk-quant] #9519 internal_vstd__view__impl&__6_trait_impl_definition 2 #9518 #9517
[attach-var-names] #9519 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9520 or #3244 #9516
[inst-discovered] theory-solving 0x0 basic# ; #9517
[mk-app] #9521 = #9517 #9520
[instance] 0x0 #9521
[attach-enode] #9521 0
[end-of-instance]
[mk-quant] #9521 internal_vstd__view__impl&__6_trait_impl_definition 2 #9518 #9520
[attach-var-names] #9521 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9522 tr_bound%vstd!view.View. #120 #1716
[mk-app] #9523 => #2967 #9522
[mk-app] #9524 pattern #9522
[mk-quant] #9525 internal_vstd__view__impl&__14_trait_impl_definition 2 #9524 #9523
[attach-var-names] #9525 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9526 or #3188 #9522
[inst-discovered] theory-solving 0x0 basic# ; #9523
[mk-app] #9527 = #9523 #9526
[instance] 0x0 #9527
[attach-enode] #9527 0
[end-of-instance]
[mk-quant] #9527 internal_vstd__view__impl&__14_trait_impl_definition 2 #9524 #9526
[attach-var-names] #9527 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9528 tr_bound%vstd!view.View. #120 #1184
[mk-app] #9529 tr_bound%vstd!view.View. #120 #135
[mk-app] #9530 tr_bound%vstd!view.View. #120 #3308
[attach-meaning] #280 arith 32
[mk-app] #9531 tr_bound%vstd!view.View. #120 #3313
[mk-app] #9532 tr_bound%vstd!view.View. #120 #203
[mk-app] #9533 tr_bound%vstd!view.View. #120 #211
[mk-app] #9534 tr_bound%vstd!view.View. #120 #244
[mk-app] #9535 tr_bound%vstd!view.View. #3330 #3331
[mk-app] #9536 => #3237 #9535
[mk-app] #9537 pattern #9535
[mk-quant] #9538 internal_vstd__view__impl&__46_trait_impl_definition 2 #9537 #9536
[attach-var-names] #9538 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #9539 or #3244 #9535
[inst-discovered] theory-solving 0x0 basic# ; #9536
[mk-app] #9540 = #9536 #9539
[instance] 0x0 #9540
[attach-enode] #9540 0
[end-of-instance]
[mk-quant] #9540 internal_vstd__view__impl&__46_trait_impl_definition 2 #9537 #9539
[attach-var-names] #9540 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #9541 tr_bound%vstd!view.View. #3330 #3349
[mk-app] #9542 => #3348 #9541
[mk-app] #9543 pattern #9541
[mk-quant] #9544 internal_vstd__view__impl&__48_trait_impl_definition 4 #9543 #9542
[attach-var-names] #9544 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #9545 or #3355 #9541
[inst-discovered] theory-solving 0x0 basic# ; #9542
[mk-app] #9546 = #9542 #9545
[instance] 0x0 #9546
[attach-enode] #9546 0
[end-of-instance]
[mk-quant] #9546 internal_vstd__view__impl&__48_trait_impl_definition 4 #9543 #9545
[attach-var-names] #9546 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #9547 tr_bound%core!iter.traits.iterator.Iterator. #120 #46
[mk-app] #9548 => #3051 #9547
[mk-app] #9549 pattern #9547
[mk-quant] #9550 internal_core__iter__traits__iterator__impl&__2_trait_impl_definition 2 #9549 #9548
[attach-var-names] #9550 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #9551 or #3057 #9547
[inst-discovered] theory-solving 0x0 basic# ; #9548
[mk-app] #9552 = #9548 #9551
[instance] 0x0 #9552
[attach-enode] #9552 0
[end-of-instance]
[mk-quant] #9552 internal_core__iter__traits__iterator__impl&__2_trait_impl_definition 2 #9549 #9551
[attach-var-names] #9552 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #9553 tr_bound%vstd!std_specs.iter.IteratorSpec. #120 #46
[mk-app] #9554 => #3425 #9553
[mk-app] #9555 pattern #9553
[mk-quant] #9556 internal_vstd__std_specs__iter__impl&__2_trait_impl_definition 2 #9555 #9554
[attach-var-names] #9556 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #9557 or #3430 #9553
[inst-discovered] theory-solving 0x0 basic# ; #9554
[mk-app] #9558 = #9554 #9557
[instance] 0x0 #9558
[attach-enode] #9558 0
[end-of-instance]
[mk-quant] #9558 internal_vstd__std_specs__iter__impl&__2_trait_impl_definition 2 #9555 #9557
[attach-var-names] #9558 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #9559 tr_bound%core!iter.traits.iterator.Iterator. #120 #3749
[mk-app] #9560 => #3748 #9559
[mk-app] #9561 pattern #9559
[mk-quant] #9562 internal_core__iter__range__impl&__6_trait_impl_definition 2 #9561 #9560
[attach-var-names] #9562 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9563 or #3755 #9559
[inst-discovered] theory-solving 0x0 basic# ; #9560
[mk-app] #9564 = #9560 #9563
[instance] 0x0 #9564
[attach-enode] #9564 0
[end-of-instance]
[mk-quant] #9564 internal_core__iter__range__impl&__6_trait_impl_definition 2 #9561 #9563
[attach-var-names] #9564 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9565 tr_bound%vstd!std_specs.iter.IteratorSpec. #120 #3749
[mk-app] #9566 => #3748 #9565
[mk-app] #9567 pattern #9565
[mk-quant] #9568 internal_vstd__std_specs__range__impl&__3_trait_impl_definition 2 #9567 #9566
[attach-var-names] #9568 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9569 or #3755 #9565
[inst-discovered] theory-solving 0x0 basic# ; #9566
[mk-app] #9570 = #9566 #9569
[instance] 0x0 #9570
[attach-enode] #9570 0
[end-of-instance]
[mk-quant] #9570 internal_vstd__std_specs__range__impl&__3_trait_impl_definition 2 #9567 #9569
[attach-var-names] #9570 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9571 tr_bound%core!iter.traits.iterator.Iterator. #120 #3626
[mk-app] #9572 => #2967 #9571
[mk-app] #9573 pattern #9571
[mk-quant] #9574 internal_core__slice__iter__impl&__178_trait_impl_definition 2 #9573 #9572
[attach-var-names] #9574 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9575 or #3188 #9571
[inst-discovered] theory-solving 0x0 basic# ; #9572
[mk-app] #9576 = #9572 #9575
[instance] 0x0 #9576
[attach-enode] #9576 0
[end-of-instance]
[mk-quant] #9576 internal_core__slice__iter__impl&__178_trait_impl_definition 2 #9573 #9575
[attach-var-names] #9576 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9577 tr_bound%vstd!std_specs.iter.IteratorSpec. #120 #3626
[mk-app] #9578 => #2967 #9577
[mk-app] #9579 pattern #9577
[mk-quant] #9580 internal_vstd__std_specs__slice__impl&__11_trait_impl_definition 2 #9579 #9578
[attach-var-names] #9580 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9581 or #3188 #9577
[inst-discovered] theory-solving 0x0 basic# ; #9578
[mk-app] #9582 = #9578 #9581
[instance] 0x0 #9582
[attach-enode] #9582 0
[end-of-instance]
[mk-quant] #9582 internal_vstd__std_specs__slice__impl&__11_trait_impl_definition 2 #9579 #9581
[attach-var-names] #9582 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9583 and #3106 #2967 #5520 #3045 #2992
[mk-app] #9584 tr_bound%core!clone.Clone. #3407 #263
[mk-app] #9585 => #9583 #9584
[mk-app] #9586 pattern #9584
[mk-quant] #9587 internal_alloc__boxed__impl&__15_trait_impl_definition 4 #9586 #9585
[attach-var-names] #9587 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9588 not #9583
[mk-app] #9589 or #9588 #9584
[inst-discovered] theory-solving 0x0 basic# ; #9585
[mk-app] #9590 = #9585 #9589
[instance] 0x0 #9590
[attach-enode] #9590 0
[end-of-instance]
[mk-quant] #9590 internal_alloc__boxed__impl&__15_trait_impl_definition 4 #9586 #9589
[attach-var-names] #9590 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9591 tr_bound%core!clone.Clone. #3513 #3515
[mk-app] #9592 => #9583 #9591
[mk-app] #9593 pattern #9591
[mk-quant] #9594 internal_alloc__boxed__impl&__16_trait_impl_definition 4 #9593 #9592
[attach-var-names] #9594 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9595 or #9588 #9591
[inst-discovered] theory-solving 0x0 basic# ; #9592
[mk-app] #9596 = #9592 #9595
[instance] 0x0 #9596
[attach-enode] #9596 0
[end-of-instance]
[mk-quant] #9596 internal_alloc__boxed__impl&__16_trait_impl_definition 4 #9593 #9595
[attach-var-names] #9596 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9597 BOX #120 #1321 #1198
[mk-app] #9598 tr_bound%core!clone.Clone. #9597 #1683
[mk-app] #9599 tr_bound%core!clone.Clone. #120 #135
[mk-app] #9600 tr_bound%core!clone.Clone. #120 #244
[mk-app] #9601 tr_bound%core!clone.Clone. #3173 #3163
[mk-app] #9602 pattern #9601
[mk-quant] #9603 internal_core__clone__impls__impl&__2_trait_impl_definition 2 #9602 #9601
[attach-var-names] #9603 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9604 tr_bound%core!clone.Clone. #120 #3163
[mk-app] #9605 pattern #9604
[mk-quant] #9606 internal_core__clone__impls__impl&__4_trait_impl_definition 2 #9605 #9604
[attach-var-names] #9606 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9607 tr_bound%core!clone.Clone. #3206 #45
[mk-app] #9608 pattern #9607
[mk-quant] #9609 internal_core__clone__impls__impl&__6_trait_impl_definition 2 #9608 #9607
[attach-var-names] #9609 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9610 and #2967 #2992
[mk-app] #9611 tr_bound%core!clone.Clone. #120 #3749
[mk-app] #9612 => #9610 #9611
[mk-app] #9613 pattern #9611
[mk-quant] #9614 internal_core__ops__range__impl&__49_trait_impl_definition 2 #9613 #9612
[attach-var-names] #9614 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #9615 not #9610
[mk-app] #9616 or #9615 #9611
[inst-discovered] theory-solving 0x0 basic# ; #9612
[mk-app] #9617 = #9612 #9616
[instance] 0x0 #9617
[attach-enode] #9617 0
[end-of-instance]
[mk-quant] #9617 internal_core__ops__range__impl&__49_trait_impl_definition 2 #9613 #9616
[attach-var-names] #9617 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #9618 and #3106 #3144 #5520
[mk-app] #9619 tr_bound%core!clone.Clone. #120 #3146
[mk-app] #9620 => #9618 #9619
[mk-app] #9621 pattern #9619
[mk-quant] #9622 internal_core__array__impl&__20_trait_impl_definition 4 #9621 #9620
[attach-var-names] #9622 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9623 not #9618
[mk-app] #9624 or #9623 #9619
[inst-discovered] theory-solving 0x0 basic# ; #9620
[mk-app] #9625 = #9620 #9624
[instance] 0x0 #9625
[attach-enode] #9625 0
[end-of-instance]
[mk-quant] #9625 internal_core__array__impl&__20_trait_impl_definition 4 #9621 #9624
[attach-var-names] #9625 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9626 and #3106 #2967 #5520 #2992
[mk-app] #9627 tr_bound%core!clone.Clone. #120 #6146
[mk-app] #9628 => #9626 #9627
[mk-app] #9629 pattern #9627
[mk-quant] #9630 internal_core__result__impl&__5_trait_impl_definition 4 #9629 #9628
[attach-var-names] #9630 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9631 not #9626
[mk-app] #9632 or #9631 #9627
[inst-discovered] theory-solving 0x0 basic# ; #9628
[mk-app] #9633 = #9628 #9632
[instance] 0x0 #9633
[attach-enode] #9633 0
[end-of-instance]
[mk-quant] #9633 internal_core__result__impl&__5_trait_impl_definition 4 #9629 #9632
[attach-var-names] #9633 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9634 tr_bound%core!clone.Clone. #120 #3506
[mk-app] #9635 => #2967 #9634
[mk-app] #9636 pattern #9634
[mk-quant] #9637 internal_core__slice__iter__impl&__7_trait_impl_definition 2 #9636 #9635
[attach-var-names] #9637 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9638 or #3188 #9634
[inst-discovered] theory-solving 0x0 basic# ; #9635
[mk-app] #9639 = #9635 #9638
[instance] 0x0 #9639
[attach-enode] #9639 0
[end-of-instance]
[mk-quant] #9639 internal_core__slice__iter__impl&__7_trait_impl_definition 2 #9636 #9638
[attach-var-names] #9639 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9640 tr_bound%core!clone.Clone. #120 #1321
[mk-app] #9641 and #2967 #3045 #2992
[mk-app] #9642 RC #44 #45 #1249
[mk-app] #9643 tr_bound%core!clone.Clone. #9642 #263
[mk-app] #9644 => #9641 #9643
[mk-app] #9645 pattern #9643
[mk-quant] #9646 internal_alloc__rc__impl&__35_trait_impl_definition 4 #9645 #9644
[attach-var-names] #9646 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9647 not #9641
[mk-app] #9648 or #9647 #9643
[inst-discovered] theory-solving 0x0 basic# ; #9644
[mk-app] #9649 = #9644 #9648
[instance] 0x0 #9649
[attach-enode] #9649 0
[end-of-instance]
[mk-quant] #9649 internal_alloc__rc__impl&__35_trait_impl_definition 4 #9645 #9648
[attach-var-names] #9649 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9650 tr_bound%core!clone.Clone. #120 #1341
[mk-app] #9651 ARC #44 #45 #1249
[mk-app] #9652 tr_bound%core!clone.Clone. #9651 #263
[mk-app] #9653 => #9641 #9652
[mk-app] #9654 pattern #9652
[mk-quant] #9655 internal_alloc__sync__impl&__32_trait_impl_definition 4 #9654 #9653
[attach-var-names] #9655 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9656 or #9647 #9652
[inst-discovered] theory-solving 0x0 basic# ; #9653
[mk-app] #9657 = #9653 #9656
[instance] 0x0 #9657
[attach-enode] #9657 0
[end-of-instance]
[mk-quant] #9657 internal_alloc__sync__impl&__32_trait_impl_definition 4 #9654 #9656
[attach-var-names] #9657 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9658 tr_bound%core!clone.Clone. #120 #3699
[mk-app] #9659 => #9583 #9658
[mk-app] #9660 pattern #9658
[mk-quant] #9661 internal_alloc__vec__into_iter__impl&__15_trait_impl_definition 4 #9660 #9659
[attach-var-names] #9661 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9662 or #9588 #9658
[inst-discovered] theory-solving 0x0 basic# ; #9659
[mk-app] #9663 = #9659 #9662
[instance] 0x0 #9663
[attach-enode] #9663 0
[end-of-instance]
[mk-quant] #9663 internal_alloc__vec__into_iter__impl&__15_trait_impl_definition 4 #9660 #9662
[attach-var-names] #9663 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9664 tr_bound%core!clone.Clone. #120 #3270
[mk-app] #9665 => #9583 #9664
[mk-app] #9666 pattern #9664
[mk-quant] #9667 internal_alloc__vec__impl&__12_trait_impl_definition 4 #9666 #9665
[attach-var-names] #9667 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9668 or #9588 #9664
[inst-discovered] theory-solving 0x0 basic# ; #9665
[mk-app] #9669 = #9665 #9668
[instance] 0x0 #9669
[attach-enode] #9669 0
[end-of-instance]
[mk-quant] #9669 internal_alloc__vec__impl&__12_trait_impl_definition 4 #9666 #9668
[attach-var-names] #9669 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9670 GHOST #44
[mk-app] #9671 tr_bound%core!clone.Clone. #9670 #45
[mk-app] #9672 => #2967 #9671
[mk-app] #9673 pattern #9671
[mk-quant] #9674 internal_verus_builtin__impl&__7_trait_impl_definition 2 #9673 #9672
[attach-var-names] #9674 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9675 or #3188 #9671
[inst-discovered] theory-solving 0x0 basic# ; #9672
[mk-app] #9676 = #9672 #9675
[instance] 0x0 #9676
[attach-enode] #9676 0
[end-of-instance]
[mk-quant] #9676 internal_verus_builtin__impl&__7_trait_impl_definition 2 #9673 #9675
[attach-var-names] #9676 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9677 and #2967 #2999
[mk-app] #9678 TRACKED #44
[mk-app] #9679 tr_bound%core!clone.Clone. #9678 #45
[mk-app] #9680 => #9677 #9679
[mk-app] #9681 pattern #9679
[mk-quant] #9682 internal_verus_builtin__impl&__9_trait_impl_definition 2 #9681 #9680
[attach-var-names] #9682 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9683 not #9677
[mk-app] #9684 or #9683 #9679
[inst-discovered] theory-solving 0x0 basic# ; #9680
[mk-app] #9685 = #9680 #9684
[instance] 0x0 #9685
[attach-enode] #9685 0
[end-of-instance]
[mk-quant] #9685 internal_verus_builtin__impl&__9_trait_impl_definition 2 #9681 #9684
[attach-var-names] #9685 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9686 tr_bound%core!clone.Clone. #120 #184
[mk-app] #9687 tr_bound%core!clone.Clone. #120 #195
[mk-app] #9688 tr_bound%core!cmp.PartialEq. #1198 #1683 #1198 #1683
[mk-app] #9689 tr_bound%core!cmp.PartialEq. #1198 #1683 #120 #1341
[mk-app] #9690 tr_bound%core!cmp.PartialEq. #3454 #263 #3206 #45
[mk-app] #9691 => #3006 #9690
[mk-app] #9692 pattern #9690
[mk-quant] #9693 internal_core__cmp__impls__impl&__9_trait_impl_definition 4 #9692 #9691
[attach-var-names] #9693 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9694 not #3006
[mk-app] #9695 or #9694 #9690
[inst-discovered] theory-solving 0x0 basic# ; #9691
[mk-app] #9696 = #9691 #9695
[instance] 0x0 #9696
[attach-enode] #9696 0
[end-of-instance]
[mk-quant] #9696 internal_core__cmp__impls__impl&__9_trait_impl_definition 4 #9692 #9695
[attach-var-names] #9696 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9697 tr_bound%core!cmp.PartialEq. #3454 #263 #120 #46
[mk-app] #9698 => #3006 #9697
[mk-app] #9699 pattern #9697
[mk-quant] #9700 internal_core__cmp__impls__impl&__17_trait_impl_definition 4 #9699 #9698
[attach-var-names] #9700 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9701 or #9694 #9697
[inst-discovered] theory-solving 0x0 basic# ; #9698
[mk-app] #9702 = #9698 #9701
[instance] 0x0 #9702
[attach-enode] #9702 0
[end-of-instance]
[mk-quant] #9702 internal_core__cmp__impls__impl&__17_trait_impl_definition 4 #9699 #9701
[attach-var-names] #9702 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9703 tr_bound%core!cmp.PartialEq. #1248 #1229 #1249 #263
[mk-app] #9704 and #3403 #3106 #3144 #9703
[mk-app] #9705 SLICE #1248 #1229
[mk-app] #9706 tr_bound%core!cmp.PartialEq. #3483 #9705 #120 #3146
[mk-app] #9707 => #9704 #9706
[mk-app] #9708 pattern #9706
[mk-quant] #9709 internal_core__array__equality__impl&__4_trait_impl_definition 6 #9708 #9707
[attach-var-names] #9709 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9710 not #9704
[mk-app] #9711 or #9710 #9706
[inst-discovered] theory-solving 0x0 basic# ; #9707
[mk-app] #9712 = #9707 #9711
[instance] 0x0 #9712
[attach-enode] #9712 0
[end-of-instance]
[mk-quant] #9712 internal_core__array__equality__impl&__4_trait_impl_definition 6 #9708 #9711
[attach-var-names] #9712 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9713 tr_bound%core!cmp.PartialEq. #3483 #1683 #120 #1341
[mk-app] #9714 and #3403 #3106 #2967 #3045 #9703
[mk-app] #9715 tr_bound%core!cmp.PartialEq. #3483 #9705 #120 #3270
[mk-app] #9716 => #9714 #9715
[mk-app] #9717 pattern #9715
[mk-quant] #9718 internal_alloc__vec__partial_eq__impl&__3_trait_impl_definition 6 #9717 #9716
[attach-var-names] #9718 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9719 not #9714
[mk-app] #9720 or #9719 #9715
[inst-discovered] theory-solving 0x0 basic# ; #9716
[mk-app] #9721 = #9716 #9720
[instance] 0x0 #9721
[attach-enode] #9721 0
[end-of-instance]
[mk-quant] #9721 internal_alloc__vec__partial_eq__impl&__3_trait_impl_definition 6 #9717 #9720
[attach-var-names] #9721 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9722 tr_bound%core!cmp.PartialEq. #120 #1341 #120 #1341
[mk-app] #9723 tr_bound%core!cmp.PartialEq. #120 #1341 #1198 #1683
[mk-app] #9724 tr_bound%core!cmp.PartialEq. #120 #1341 #3483 #1683
[mk-app] #9725 tr_bound%core!cmp.PartialEq. #3173 #3163 #3173 #3163
[mk-app] #9726 pattern #9725
[mk-quant] #9727 internal_core__ptr__const_ptr__impl&__7_trait_impl_definition 2 #9726 #9725
[attach-var-names] #9727 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9728 tr_bound%core!cmp.PartialEq. #120 #3163 #120 #3163
[mk-app] #9729 pattern #9728
[mk-quant] #9730 internal_core__ptr__mut_ptr__impl&__7_trait_impl_definition 2 #9729 #9728
[attach-var-names] #9730 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9731 tr_bound%core!cmp.PartialEq. #120 #1184 #120 #1184
[mk-app] #9732 tr_bound%core!cmp.PartialEq. #120 #135 #120 #135
[mk-app] #9733 tr_bound%core!cmp.PartialEq. #120 #244 #120 #244
[mk-app] #9734 tr_bound%core!cmp.PartialEq. #120 #3581 #120 #46
[mk-app] #9735 => #3006 #9734
[mk-app] #9736 pattern #9734
[mk-quant] #9737 internal_core__cmp__impls__impl&__13_trait_impl_definition 4 #9736 #9735
[attach-var-names] #9737 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9738 or #9694 #9734
[inst-discovered] theory-solving 0x0 basic# ; #9735
[mk-app] #9739 = #9735 #9738
[instance] 0x0 #9739
[attach-enode] #9739 0
[end-of-instance]
[mk-quant] #9739 internal_core__cmp__impls__impl&__13_trait_impl_definition 4 #9736 #9738
[attach-var-names] #9739 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9740 tr_bound%core!cmp.PartialEq. #120 #3581 #3206 #45
[mk-app] #9741 => #3006 #9740
[mk-app] #9742 pattern #9740
[mk-quant] #9743 internal_core__cmp__impls__impl&__18_trait_impl_definition 4 #9742 #9741
[attach-var-names] #9743 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9744 or #9694 #9740
[inst-discovered] theory-solving 0x0 basic# ; #9741
[mk-app] #9745 = #9741 #9744
[instance] 0x0 #9745
[attach-enode] #9745 0
[end-of-instance]
[mk-quant] #9745 internal_core__cmp__impls__impl&__18_trait_impl_definition 4 #9742 #9744
[attach-var-names] #9745 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9746 MUTREF #1198 #9705
[mk-app] #9747 tr_bound%core!cmp.PartialEq. #120 #9746 #120 #3146
[mk-app] #9748 => #9704 #9747
[mk-app] #9749 pattern #9747
[mk-quant] #9750 internal_core__array__equality__impl&__6_trait_impl_definition 6 #9749 #9748
[attach-var-names] #9750 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9751 or #9710 #9747
[inst-discovered] theory-solving 0x0 basic# ; #9748
[mk-app] #9752 = #9748 #9751
[instance] 0x0 #9752
[attach-enode] #9752 0
[end-of-instance]
[mk-quant] #9752 internal_core__array__equality__impl&__6_trait_impl_definition 6 #9749 #9751
[attach-var-names] #9752 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9753 tr_bound%core!cmp.PartialEq. #120 #9746 #120 #3270
[mk-app] #9754 => #9714 #9753
[mk-app] #9755 pattern #9753
[mk-quant] #9756 internal_alloc__vec__partial_eq__impl&__4_trait_impl_definition 6 #9755 #9754
[attach-var-names] #9756 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9757 or #9719 #9753
[inst-discovered] theory-solving 0x0 basic# ; #9754
[mk-app] #9758 = #9754 #9757
[instance] 0x0 #9758
[attach-enode] #9758 0
[end-of-instance]
[mk-quant] #9758 internal_alloc__vec__partial_eq__impl&__4_trait_impl_definition 6 #9755 #9757
[attach-var-names] #9758 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9759 tr_bound%core!cmp.PartialEq. #44 #45 #44 #45
[mk-app] #9760 and #2967 #9759
[mk-app] #9761 tr_bound%core!cmp.PartialEq. #120 #3749 #120 #3749
[mk-app] #9762 => #9760 #9761
[mk-app] #9763 pattern #9761
[mk-quant] #9764 internal_core__ops__range__impl&__52_trait_impl_definition 2 #9763 #9762
[attach-var-names] #9764 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #9765 not #9760
[mk-app] #9766 or #9765 #9761
[inst-discovered] theory-solving 0x0 basic# ; #9762
[mk-app] #9767 = #9762 #9766
[instance] 0x0 #9767
[attach-enode] #9767 0
[end-of-instance]
[mk-quant] #9767 internal_core__ops__range__impl&__52_trait_impl_definition 2 #9763 #9766
[attach-var-names] #9767 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #9768 ARRAY #1248 #1229 #44 #45
[mk-app] #9769 tr_bound%core!cmp.PartialEq. #120 #9768 #120 #3146
[mk-app] #9770 => #9704 #9769
[mk-app] #9771 pattern #9769
[mk-quant] #9772 internal_core__array__equality__impl&__0_trait_impl_definition 6 #9771 #9770
[attach-var-names] #9772 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9773 or #9710 #9769
[inst-discovered] theory-solving 0x0 basic# ; #9770
[mk-app] #9774 = #9770 #9773
[instance] 0x0 #9774
[attach-enode] #9774 0
[end-of-instance]
[mk-quant] #9774 internal_core__array__equality__impl&__0_trait_impl_definition 6 #9771 #9773
[attach-var-names] #9774 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9775 tr_bound%core!cmp.PartialEq. #120 #9768 #1198 #3515
[mk-app] #9776 => #9704 #9775
[mk-app] #9777 pattern #9775
[mk-quant] #9778 internal_core__array__equality__impl&__1_trait_impl_definition 6 #9777 #9776
[attach-var-names] #9778 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9779 or #9710 #9775
[inst-discovered] theory-solving 0x0 basic# ; #9776
[mk-app] #9780 = #9776 #9779
[instance] 0x0 #9780
[attach-enode] #9780 0
[end-of-instance]
[mk-quant] #9780 internal_core__array__equality__impl&__1_trait_impl_definition 6 #9777 #9779
[attach-var-names] #9780 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9781 tr_bound%core!cmp.PartialEq. #120 #9768 #3483 #3515
[mk-app] #9782 => #9704 #9781
[mk-app] #9783 pattern #9781
[mk-quant] #9784 internal_core__array__equality__impl&__3_trait_impl_definition 6 #9783 #9782
[attach-var-names] #9784 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9785 or #9710 #9781
[inst-discovered] theory-solving 0x0 basic# ; #9782
[mk-app] #9786 = #9782 #9785
[instance] 0x0 #9786
[attach-enode] #9786 0
[end-of-instance]
[mk-quant] #9786 internal_core__array__equality__impl&__3_trait_impl_definition 6 #9783 #9785
[attach-var-names] #9786 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9787 MUTREF #1198 #3515
[mk-app] #9788 tr_bound%core!cmp.PartialEq. #120 #9768 #120 #9787
[mk-app] #9789 => #9704 #9788
[mk-app] #9790 pattern #9788
[mk-quant] #9791 internal_core__array__equality__impl&__5_trait_impl_definition 6 #9790 #9789
[attach-var-names] #9791 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9792 or #9710 #9788
[inst-discovered] theory-solving 0x0 basic# ; #9789
[mk-app] #9793 = #9789 #9792
[instance] 0x0 #9793
[attach-enode] #9793 0
[end-of-instance]
[mk-quant] #9793 internal_core__array__equality__impl&__5_trait_impl_definition 6 #9790 #9792
[attach-var-names] #9793 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9794 tr_bound%core!cmp.PartialEq. #1198 #9705 #120 #3146
[mk-app] #9795 => #9704 #9794
[mk-app] #9796 pattern #9794
[mk-quant] #9797 internal_core__array__equality__impl&__2_trait_impl_definition 6 #9796 #9795
[attach-var-names] #9797 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9798 or #9710 #9794
[inst-discovered] theory-solving 0x0 basic# ; #9795
[mk-app] #9799 = #9795 #9798
[instance] 0x0 #9799
[attach-enode] #9799 0
[end-of-instance]
[mk-quant] #9799 internal_core__array__equality__impl&__2_trait_impl_definition 6 #9796 #9798
[attach-var-names] #9799 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9800 and #3106 #2967 #3006
[mk-app] #9801 tr_bound%core!cmp.PartialEq. #1198 #3515 #1198 #3182
[mk-app] #9802 => #9800 #9801
[mk-app] #9803 pattern #9801
[mk-quant] #9804 internal_core__slice__cmp__impl&__0_trait_impl_definition 4 #9803 #9802
[attach-var-names] #9804 (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9805 not #9800
[mk-app] #9806 or #9805 #9801
[inst-discovered] theory-solving 0x0 basic# ; #9802
[mk-app] #9807 = #9802 #9806
[instance] 0x0 #9807
[attach-enode] #9807 0
[end-of-instance]
[mk-quant] #9807 internal_core__slice__cmp__impl&__0_trait_impl_definition 4 #9803 #9806
[attach-var-names] #9807 (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9808 tr_bound%core!cmp.PartialEq. #1198 #9705 #120 #3270
[mk-app] #9809 => #9714 #9808
[mk-app] #9810 pattern #9808
[mk-quant] #9811 internal_alloc__vec__partial_eq__impl&__6_trait_impl_definition 6 #9810 #9809
[attach-var-names] #9811 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9812 or #9719 #9808
[inst-discovered] theory-solving 0x0 basic# ; #9809
[mk-app] #9813 = #9809 #9812
[instance] 0x0 #9813
[attach-enode] #9813 0
[end-of-instance]
[mk-quant] #9813 internal_alloc__vec__partial_eq__impl&__6_trait_impl_definition 6 #9810 #9812
[attach-var-names] #9813 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9814 tr_bound%core!cmp.PartialEq. #120 #1716 #120 #1716
[mk-app] #9815 => #9760 #9814
[mk-app] #9816 pattern #9814
[mk-quant] #9817 internal_core__option__impl&__17_trait_impl_definition 2 #9816 #9815
[attach-var-names] #9817 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9818 or #9765 #9814
[inst-discovered] theory-solving 0x0 basic# ; #9815
[mk-app] #9819 = #9815 #9818
[instance] 0x0 #9819
[attach-enode] #9819 0
[end-of-instance]
[mk-quant] #9819 internal_core__option__impl&__17_trait_impl_definition 2 #9816 #9818
[attach-var-names] #9819 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9820 tr_bound%core!cmp.PartialEq. #1249 #263 #1249 #263
[mk-app] #9821 and #3106 #2967 #9820 #9759
[mk-app] #9822 tr_bound%core!cmp.PartialEq. #120 #6146 #120 #6146
[mk-app] #9823 => #9821 #9822
[mk-app] #9824 pattern #9822
[mk-quant] #9825 internal_core__result__impl&__34_trait_impl_definition 4 #9824 #9823
[attach-var-names] #9825 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9826 not #9821
[mk-app] #9827 or #9826 #9822
[inst-discovered] theory-solving 0x0 basic# ; #9823
[mk-app] #9828 = #9823 #9827
[instance] 0x0 #9828
[attach-enode] #9828 0
[end-of-instance]
[mk-quant] #9828 internal_core__result__impl&__34_trait_impl_definition 4 #9824 #9827
[attach-var-names] #9828 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9829 tr_bound%core!cmp.PartialEq. #3330 #3331 #3330 #3331
[mk-app] #9830 => #9760 #9829
[mk-app] #9831 pattern #9829
[mk-quant] #9832 internal_core__tuple__impl&__0_trait_impl_definition 2 #9831 #9830
[attach-var-names] #9832 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9833 or #9765 #9829
[inst-discovered] theory-solving 0x0 basic# ; #9830
[mk-app] #9834 = #9830 #9833
[instance] 0x0 #9834
[attach-enode] #9834 0
[end-of-instance]
[mk-quant] #9834 internal_core__tuple__impl&__0_trait_impl_definition 2 #9831 #9833
[attach-var-names] #9834 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9835 tr_bound%core!cmp.PartialEq. #3330 #3349 #3330 #3349
[mk-app] #9836 => #9821 #9835
[mk-app] #9837 pattern #9835
[mk-quant] #9838 internal_core__tuple__impl&__10_trait_impl_definition 4 #9837 #9836
[attach-var-names] #9838 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|)
[mk-app] #9839 or #9826 #9835
[inst-discovered] theory-solving 0x0 basic# ; #9836
[mk-app] #9840 = #9836 #9839
[instance] 0x0 #9840
[attach-enode] #9840 0
[end-of-instance]
[mk-quant] #9840 internal_core__tuple__impl&__10_trait_impl_definition 4 #9837 #9839
[attach-var-names] #9840 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|)
[mk-app] #9841 and #2967 #9820 #3045
[mk-app] #9842 tr_bound%core!cmp.PartialEq. #3407 #263 #3407 #263
[mk-app] #9843 => #9841 #9842
[mk-app] #9844 pattern #9842
[mk-quant] #9845 internal_alloc__boxed__impl&__18_trait_impl_definition 4 #9844 #9843
[attach-var-names] #9845 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9846 not #9841
[mk-app] #9847 or #9846 #9842
[inst-discovered] theory-solving 0x0 basic# ; #9843
[mk-app] #9848 = #9843 #9847
[instance] 0x0 #9848
[attach-enode] #9848 0
[end-of-instance]
[mk-quant] #9848 internal_alloc__boxed__impl&__18_trait_impl_definition 4 #9844 #9847
[attach-var-names] #9848 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-var] #9849 7
[mk-app] #9850 sized #9849
[mk-app] #9851 tr_bound%core!cmp.PartialEq. #9849 #1277 #1248 #1229
[mk-app] #9852 and #9850 #3403 #3106 #2967 #6368 #3045 #9851
[mk-app] #9853 TYPE%alloc!vec.Vec. #9849 #1277 #1249 #263
[mk-app] #9854 TYPE%alloc!vec.Vec. #1248 #1229 #44 #45
[mk-app] #9855 tr_bound%core!cmp.PartialEq. #120 #9853 #120 #9854
[mk-app] #9856 => #9852 #9855
[mk-app] #9857 pattern #9855
[mk-quant] #9858 internal_alloc__vec__partial_eq__impl&__0_trait_impl_definition 8 #9857 #9856
[attach-var-names] #9858 (|A2&| ; |Type|) (|A2&.| ; |Dcr|) (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9859 not #9852
[mk-app] #9860 or #9859 #9855
[inst-discovered] theory-solving 0x0 basic# ; #9856
[mk-app] #9861 = #9856 #9860
[instance] 0x0 #9861
[attach-enode] #9861 0
[end-of-instance]
[mk-quant] #9861 internal_alloc__vec__partial_eq__impl&__0_trait_impl_definition 8 #9857 #9860
[attach-var-names] #9861 (|A2&| ; |Type|) (|A2&.| ; |Dcr|) (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9862 tr_bound%core!cmp.PartialEq. #120 #9854 #3483 #3515
[mk-app] #9863 => #9714 #9862
[mk-app] #9864 pattern #9862
[mk-quant] #9865 internal_alloc__vec__partial_eq__impl&__1_trait_impl_definition 6 #9864 #9863
[attach-var-names] #9865 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9866 or #9719 #9862
[inst-discovered] theory-solving 0x0 basic# ; #9863
[mk-app] #9867 = #9863 #9866
[instance] 0x0 #9867
[attach-enode] #9867 0
[end-of-instance]
[mk-quant] #9867 internal_alloc__vec__partial_eq__impl&__1_trait_impl_definition 6 #9864 #9866
[attach-var-names] #9867 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9868 tr_bound%core!cmp.PartialEq. #120 #9854 #120 #9787
[mk-app] #9869 => #9714 #9868
[mk-app] #9870 pattern #9868
[mk-quant] #9871 internal_alloc__vec__partial_eq__impl&__2_trait_impl_definition 6 #9870 #9869
[attach-var-names] #9871 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9872 or #9719 #9868
[inst-discovered] theory-solving 0x0 basic# ; #9869
[mk-app] #9873 = #9869 #9872
[instance] 0x0 #9873
[attach-enode] #9873 0
[end-of-instance]
[mk-quant] #9873 internal_alloc__vec__partial_eq__impl&__2_trait_impl_definition 6 #9870 #9872
[attach-var-names] #9873 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9874 tr_bound%core!cmp.PartialEq. #120 #9854 #1198 #3515
[mk-app] #9875 => #9714 #9874
[mk-app] #9876 pattern #9874
[mk-quant] #9877 internal_alloc__vec__partial_eq__impl&__5_trait_impl_definition 6 #9876 #9875
[attach-var-names] #9877 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9878 or #9719 #9874
[inst-discovered] theory-solving 0x0 basic# ; #9875
[mk-app] #9879 = #9875 #9878
[instance] 0x0 #9879
[attach-enode] #9879 0
[end-of-instance]
[mk-quant] #9879 internal_alloc__vec__partial_eq__impl&__5_trait_impl_definition 6 #9876 #9878
[attach-var-names] #9879 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9880 and #9850 #3403 #3106 #3144 #6368 #9851
[mk-app] #9881 tr_bound%core!cmp.PartialEq. #120 #9853 #120 #9768
[mk-app] #9882 => #9880 #9881
[mk-app] #9883 pattern #9881
[mk-quant] #9884 internal_alloc__vec__partial_eq__impl&__10_trait_impl_definition 8 #9883 #9882
[attach-var-names] #9884 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9885 not #9880
[mk-app] #9886 or #9885 #9881
[inst-discovered] theory-solving 0x0 basic# ; #9882
[mk-app] #9887 = #9882 #9886
[instance] 0x0 #9887
[attach-enode] #9887 0
[end-of-instance]
[mk-quant] #9887 internal_alloc__vec__partial_eq__impl&__10_trait_impl_definition 8 #9883 #9886
[attach-var-names] #9887 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9888 tr_bound%core!cmp.PartialEq. #120 #9853 #3452 #9768
[mk-app] #9889 => #9880 #9888
[mk-app] #9890 pattern #9888
[mk-quant] #9891 internal_alloc__vec__partial_eq__impl&__11_trait_impl_definition 8 #9890 #9889
[attach-var-names] #9891 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9892 or #9885 #9888
[inst-discovered] theory-solving 0x0 basic# ; #9889
[mk-app] #9893 = #9889 #9892
[instance] 0x0 #9893
[attach-enode] #9893 0
[end-of-instance]
[mk-quant] #9893 internal_alloc__vec__partial_eq__impl&__11_trait_impl_definition 8 #9890 #9892
[attach-var-names] #9893 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9894 tr_bound%core!cmp.PartialEq. #9642 #263 #9642 #263
[mk-app] #9895 => #9841 #9894
[mk-app] #9896 pattern #9894
[mk-quant] #9897 internal_alloc__rc__impl&__45_trait_impl_definition 4 #9896 #9895
[attach-var-names] #9897 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9898 or #9846 #9894
[inst-discovered] theory-solving 0x0 basic# ; #9895
[mk-app] #9899 = #9895 #9898
[instance] 0x0 #9899
[attach-enode] #9899 0
[end-of-instance]
[mk-quant] #9899 internal_alloc__rc__impl&__45_trait_impl_definition 4 #9896 #9898
[attach-var-names] #9899 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9900 tr_bound%core!cmp.PartialEq. #9651 #263 #9651 #263
[mk-app] #9901 => #9841 #9900
[mk-app] #9902 pattern #9900
[mk-quant] #9903 internal_alloc__sync__impl&__55_trait_impl_definition 4 #9902 #9901
[attach-var-names] #9903 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9904 or #9846 #9900
[inst-discovered] theory-solving 0x0 basic# ; #9901
[mk-app] #9905 = #9901 #9904
[instance] 0x0 #9905
[attach-enode] #9905 0
[end-of-instance]
[mk-quant] #9905 internal_alloc__sync__impl&__55_trait_impl_definition 4 #9902 #9904
[attach-var-names] #9905 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9906 tr_bound%core!cmp.PartialEq. #120 #184 #120 #184
[mk-app] #9907 tr_bound%core!cmp.PartialEq. #120 #195 #120 #195
[mk-app] #9908 tr_bound%core!cmp.PartialOrd. #3454 #263 #3206 #45
[mk-app] #9909 => #3009 #9908
[mk-app] #9910 pattern #9908
[mk-quant] #9911 internal_core__cmp__impls__impl&__10_trait_impl_definition 4 #9910 #9909
[attach-var-names] #9911 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9912 or #3013 #9908
[inst-discovered] theory-solving 0x0 basic# ; #9909
[mk-app] #9913 = #9909 #9912
[instance] 0x0 #9913
[attach-enode] #9913 0
[end-of-instance]
[mk-quant] #9913 internal_core__cmp__impls__impl&__10_trait_impl_definition 4 #9910 #9912
[attach-var-names] #9913 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9914 tr_bound%core!cmp.PartialOrd. #3173 #3163 #3173 #3163
[mk-app] #9915 pattern #9914
[mk-quant] #9916 internal_core__ptr__const_ptr__impl&__10_trait_impl_definition 2 #9915 #9914
[attach-var-names] #9916 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9917 tr_bound%core!cmp.PartialOrd. #120 #3163 #120 #3163
[mk-app] #9918 pattern #9917
[mk-quant] #9919 internal_core__ptr__mut_ptr__impl&__10_trait_impl_definition 2 #9918 #9917
[attach-var-names] #9919 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9920 tr_bound%core!cmp.PartialOrd. #120 #1184 #120 #1184
[mk-app] #9921 tr_bound%core!cmp.PartialOrd. #120 #135 #120 #135
[mk-app] #9922 tr_bound%core!cmp.PartialOrd. #120 #244 #120 #244
[mk-app] #9923 tr_bound%core!cmp.PartialOrd. #120 #3581 #120 #46
[mk-app] #9924 => #3009 #9923
[mk-app] #9925 pattern #9923
[mk-quant] #9926 internal_core__cmp__impls__impl&__14_trait_impl_definition 4 #9925 #9924
[attach-var-names] #9926 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9927 or #3013 #9923
[inst-discovered] theory-solving 0x0 basic# ; #9924
[mk-app] #9928 = #9924 #9927
[instance] 0x0 #9928
[attach-enode] #9928 0
[end-of-instance]
[mk-quant] #9928 internal_core__cmp__impls__impl&__14_trait_impl_definition 4 #9925 #9927
[attach-var-names] #9928 (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #9929 tr_bound%core!cmp.PartialOrd. #1249 #263 #1249 #263
[mk-app] #9930 and #3106 #3144 #9929
[mk-app] #9931 tr_bound%core!cmp.PartialOrd. #120 #3146 #120 #3146
[mk-app] #9932 => #9930 #9931
[mk-app] #9933 pattern #9931
[mk-quant] #9934 internal_core__array__impl&__17_trait_impl_definition 4 #9933 #9932
[attach-var-names] #9934 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9935 not #9930
[mk-app] #9936 or #9935 #9931
[inst-discovered] theory-solving 0x0 basic# ; #9932
[mk-app] #9937 = #9932 #9936
[instance] 0x0 #9937
[attach-enode] #9937 0
[end-of-instance]
[mk-quant] #9937 internal_core__array__impl&__17_trait_impl_definition 4 #9933 #9936
[attach-var-names] #9937 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9938 and #2967 #3082
[mk-app] #9939 tr_bound%core!cmp.PartialOrd. #120 #1716 #120 #1716
[mk-app] #9940 => #9938 #9939
[mk-app] #9941 pattern #9939
[mk-quant] #9942 internal_core__option__impl&__18_trait_impl_definition 2 #9941 #9940
[attach-var-names] #9942 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9943 not #9938
[mk-app] #9944 or #9943 #9939
[inst-discovered] theory-solving 0x0 basic# ; #9940
[mk-app] #9945 = #9940 #9944
[instance] 0x0 #9945
[attach-enode] #9945 0
[end-of-instance]
[mk-quant] #9945 internal_core__option__impl&__18_trait_impl_definition 2 #9941 #9944
[attach-var-names] #9945 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9946 and #3106 #2967 #9929 #3082
[mk-app] #9947 tr_bound%core!cmp.PartialOrd. #120 #6146 #120 #6146
[mk-app] #9948 => #9946 #9947
[mk-app] #9949 pattern #9947
[mk-quant] #9950 internal_core__result__impl&__35_trait_impl_definition 4 #9949 #9948
[attach-var-names] #9950 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9951 not #9946
[mk-app] #9952 or #9951 #9947
[inst-discovered] theory-solving 0x0 basic# ; #9948
[mk-app] #9953 = #9948 #9952
[instance] 0x0 #9953
[attach-enode] #9953 0
[end-of-instance]
[mk-quant] #9953 internal_core__result__impl&__35_trait_impl_definition 4 #9949 #9952
[attach-var-names] #9953 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9954 tr_bound%core!cmp.PartialOrd. #1198 #3182 #1198 #3182
[mk-app] #9955 => #9938 #9954
[mk-app] #9956 pattern #9954
[mk-quant] #9957 internal_core__slice__cmp__impl&__3_trait_impl_definition 2 #9956 #9955
[attach-var-names] #9957 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9958 or #9943 #9954
[inst-discovered] theory-solving 0x0 basic# ; #9955
[mk-app] #9959 = #9955 #9958
[instance] 0x0 #9959
[attach-enode] #9959 0
[end-of-instance]
[mk-quant] #9959 internal_core__slice__cmp__impl&__3_trait_impl_definition 2 #9956 #9958
[attach-var-names] #9959 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9960 tr_bound%core!cmp.PartialOrd. #1198 #1683 #1198 #1683
[mk-app] #9961 tr_bound%core!cmp.PartialOrd. #3330 #3331 #3330 #3331
[mk-app] #9962 => #9938 #9961
[mk-app] #9963 pattern #9961
[mk-quant] #9964 internal_core__tuple__impl&__4_trait_impl_definition 2 #9963 #9962
[attach-var-names] #9964 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9965 or #9943 #9961
[inst-discovered] theory-solving 0x0 basic# ; #9962
[mk-app] #9966 = #9962 #9965
[instance] 0x0 #9966
[attach-enode] #9966 0
[end-of-instance]
[mk-quant] #9966 internal_core__tuple__impl&__4_trait_impl_definition 2 #9963 #9965
[attach-var-names] #9966 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9967 tr_bound%core!cmp.PartialOrd. #3330 #3349 #3330 #3349
[mk-app] #9968 => #9946 #9967
[mk-app] #9969 pattern #9967
[mk-quant] #9970 internal_core__tuple__impl&__14_trait_impl_definition 4 #9969 #9968
[attach-var-names] #9970 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|)
[mk-app] #9971 or #9951 #9967
[inst-discovered] theory-solving 0x0 basic# ; #9968
[mk-app] #9972 = #9968 #9971
[instance] 0x0 #9972
[attach-enode] #9972 0
[end-of-instance]
[mk-quant] #9972 internal_core__tuple__impl&__14_trait_impl_definition 4 #9969 #9971
[attach-var-names] #9972 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|)
[mk-app] #9973 and #2967 #9929 #3045
[mk-app] #9974 tr_bound%core!cmp.PartialOrd. #3407 #263 #3407 #263
[mk-app] #9975 => #9973 #9974
[mk-app] #9976 pattern #9974
[mk-quant] #9977 internal_alloc__boxed__impl&__19_trait_impl_definition 4 #9976 #9975
[attach-var-names] #9977 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9978 not #9973
[mk-app] #9979 or #9978 #9974
[inst-discovered] theory-solving 0x0 basic# ; #9975
[mk-app] #9980 = #9975 #9979
[instance] 0x0 #9980
[attach-enode] #9980 0
[end-of-instance]
[mk-quant] #9980 internal_alloc__boxed__impl&__19_trait_impl_definition 4 #9976 #9979
[attach-var-names] #9980 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9981 tr_bound%core!cmp.PartialOrd. #9642 #263 #9642 #263
[mk-app] #9982 => #9973 #9981
[mk-app] #9983 pattern #9981
[mk-quant] #9984 internal_alloc__rc__impl&__47_trait_impl_definition 4 #9983 #9982
[attach-var-names] #9984 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9985 or #9978 #9981
[inst-discovered] theory-solving 0x0 basic# ; #9982
[mk-app] #9986 = #9982 #9985
[instance] 0x0 #9986
[attach-enode] #9986 0
[end-of-instance]
[mk-quant] #9986 internal_alloc__rc__impl&__47_trait_impl_definition 4 #9983 #9985
[attach-var-names] #9986 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9987 tr_bound%core!cmp.PartialOrd. #120 #1341 #120 #1341
[mk-app] #9988 tr_bound%core!cmp.PartialOrd. #9651 #263 #9651 #263
[mk-app] #9989 => #9973 #9988
[mk-app] #9990 pattern #9988
[mk-quant] #9991 internal_alloc__sync__impl&__56_trait_impl_definition 4 #9990 #9989
[attach-var-names] #9991 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9992 or #9978 #9988
[inst-discovered] theory-solving 0x0 basic# ; #9989
[mk-app] #9993 = #9989 #9992
[instance] 0x0 #9993
[attach-enode] #9993 0
[end-of-instance]
[mk-quant] #9993 internal_alloc__sync__impl&__56_trait_impl_definition 4 #9990 #9992
[attach-var-names] #9993 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9994 tr_bound%core!cmp.PartialOrd. #1248 #1229 #1248 #1229
[mk-app] #9995 and #3403 #3106 #2967 #9994 #6368 #3045
[mk-app] #9996 tr_bound%core!cmp.PartialOrd. #120 #6305 #120 #9854
[mk-app] #9997 => #9995 #9996
[mk-app] #9998 pattern #9996
[mk-quant] #9999 internal_alloc__vec__impl&__23_trait_impl_definition 6 #9998 #9997
[attach-var-names] #9999 (|A2&| ; |Type|) (|A2&.| ; |Dcr|) (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10000 not #9995
[mk-app] #10001 or #10000 #9996
[inst-discovered] theory-solving 0x0 basic# ; #9997
[mk-app] #10002 = #9997 #10001
[instance] 0x0 #10002
[attach-enode] #10002 0
[end-of-instance]
[mk-quant] #10002 internal_alloc__vec__impl&__23_trait_impl_definition 6 #9998 #10001
[attach-var-names] #10002 (|A2&| ; |Type|) (|A2&.| ; |Dcr|) (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10003 tr_bound%core!cmp.PartialOrd. #120 #184 #120 #184
[mk-app] #10004 tr_bound%core!cmp.PartialOrd. #120 #195 #120 #195
[mk-app] #10005 tr_bound%core!marker.Copy. #120 #203
[mk-app] #10006 tr_bound%core!marker.Copy. #120 #3308
[attach-meaning] #280 arith 32
[mk-app] #10007 tr_bound%core!marker.Copy. #120 #3313
[mk-app] #10008 tr_bound%core!marker.Copy. #120 #211
[mk-app] #10009 tr_bound%core!marker.Copy. #120 #135
[mk-app] #10010 tr_bound%core!marker.Copy. #120 #244
[mk-app] #10011 tr_bound%core!marker.Copy. #3173 #3163
[mk-app] #10012 pattern #10011
[mk-quant] #10013 internal_core__marker__impl&__58_trait_impl_definition 2 #10012 #10011
[attach-var-names] #10013 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10014 tr_bound%core!marker.Copy. #120 #3163
[mk-app] #10015 pattern #10014
[mk-quant] #10016 internal_core__marker__impl&__59_trait_impl_definition 2 #10015 #10014
[attach-var-names] #10016 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10017 tr_bound%core!marker.Copy. #3206 #45
[mk-app] #10018 pattern #10017
[mk-quant] #10019 internal_core__marker__impl&__4_trait_impl_definition 2 #10018 #10017
[attach-var-names] #10019 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10020 and #3106 #3144 #5529
[mk-app] #10021 tr_bound%core!marker.Copy. #120 #3146
[mk-app] #10022 => #10020 #10021
[mk-app] #10023 pattern #10021
[mk-quant] #10024 internal_core__array__impl&__19_trait_impl_definition 4 #10023 #10022
[attach-var-names] #10024 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10025 not #10020
[mk-app] #10026 or #10025 #10021
[inst-discovered] theory-solving 0x0 basic# ; #10022
[mk-app] #10027 = #10022 #10026
[instance] 0x0 #10027
[attach-enode] #10027 0
[end-of-instance]
[mk-quant] #10027 internal_core__array__impl&__19_trait_impl_definition 4 #10023 #10026
[attach-var-names] #10027 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10028 tr_bound%core!clone.Clone. #120 #1716
[mk-app] #10029 => #9610 #10028
[mk-app] #10030 pattern #10028
[mk-quant] #10031 internal_core__option__impl&__6_trait_impl_definition 2 #10030 #10029
[attach-var-names] #10031 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10032 or #9615 #10028
[inst-discovered] theory-solving 0x0 basic# ; #10029
[mk-app] #10033 = #10029 #10032
[instance] 0x0 #10033
[attach-enode] #10033 0
[end-of-instance]
[mk-quant] #10033 internal_core__option__impl&__6_trait_impl_definition 2 #10030 #10032
[attach-var-names] #10033 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10034 tr_bound%core!marker.Copy. #120 #1716
[mk-app] #10035 => #9677 #10034
[mk-app] #10036 pattern #10034
[mk-quant] #10037 internal_core__option__impl&__54_trait_impl_definition 2 #10036 #10035
[attach-var-names] #10037 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10038 or #9683 #10034
[inst-discovered] theory-solving 0x0 basic# ; #10035
[mk-app] #10039 = #10035 #10038
[instance] 0x0 #10039
[attach-enode] #10039 0
[end-of-instance]
[mk-quant] #10039 internal_core__option__impl&__54_trait_impl_definition 2 #10036 #10038
[attach-var-names] #10039 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10040 and #3106 #2967 #5529 #2999
[mk-app] #10041 tr_bound%core!marker.Copy. #120 #6146
[mk-app] #10042 => #10040 #10041
[mk-app] #10043 pattern #10041
[mk-quant] #10044 internal_core__result__impl&__30_trait_impl_definition 4 #10043 #10042
[attach-var-names] #10044 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10045 not #10040
[mk-app] #10046 or #10045 #10041
[inst-discovered] theory-solving 0x0 basic# ; #10042
[mk-app] #10047 = #10042 #10046
[instance] 0x0 #10047
[attach-enode] #10047 0
[end-of-instance]
[mk-quant] #10047 internal_core__result__impl&__30_trait_impl_definition 4 #10043 #10046
[attach-var-names] #10047 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10048 tr_bound%core!marker.Copy. #120 #1321
[mk-app] #10049 tr_bound%core!marker.Copy. #9670 #45
[mk-app] #10050 => #2967 #10049
[mk-app] #10051 pattern #10049
[mk-quant] #10052 internal_verus_builtin__impl&__8_trait_impl_definition 2 #10051 #10050
[attach-var-names] #10052 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10053 or #3188 #10049
[inst-discovered] theory-solving 0x0 basic# ; #10050
[mk-app] #10054 = #10050 #10053
[instance] 0x0 #10054
[attach-enode] #10054 0
[end-of-instance]
[mk-quant] #10054 internal_verus_builtin__impl&__8_trait_impl_definition 2 #10051 #10053
[attach-var-names] #10054 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10055 tr_bound%core!marker.Copy. #9678 #45
[mk-app] #10056 => #9677 #10055
[mk-app] #10057 pattern #10055
[mk-quant] #10058 internal_verus_builtin__impl&__10_trait_impl_definition 2 #10057 #10056
[attach-var-names] #10058 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10059 or #9683 #10055
[inst-discovered] theory-solving 0x0 basic# ; #10056
[mk-app] #10060 = #10056 #10059
[instance] 0x0 #10060
[attach-enode] #10060 0
[end-of-instance]
[mk-quant] #10060 internal_verus_builtin__impl&__10_trait_impl_definition 2 #10057 #10059
[attach-var-names] #10060 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10061 tr_bound%core!marker.Copy. #120 #184
[mk-app] #10062 tr_bound%core!marker.Copy. #120 #195
[mk-app] #10063 tr_bound%core!ops.function.FnOnce. #3206 #45 #1249 #263
[mk-app] #10064 => #3368 #10063
[mk-app] #10065 pattern #10063
[mk-quant] #10066 internal_core__ops__function__impls__impl&__2_trait_impl_definition 4 #10065 #10064
[attach-var-names] #10066 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10067 or #3375 #10063
[inst-discovered] theory-solving 0x0 basic# ; #10064
[mk-app] #10068 = #10064 #10067
[instance] 0x0 #10068
[attach-enode] #10068 0
[end-of-instance]
[mk-quant] #10068 internal_core__ops__function__impls__impl&__2_trait_impl_definition 4 #10065 #10067
[attach-var-names] #10068 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10069 tr_bound%core!ops.function.FnMut. #3206 #45 #1249 #263
[mk-app] #10070 => #3368 #10069
[mk-app] #10071 pattern #10069
[mk-quant] #10072 internal_core__ops__function__impls__impl&__1_trait_impl_definition 4 #10071 #10070
[attach-var-names] #10072 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10073 or #3375 #10069
[inst-discovered] theory-solving 0x0 basic# ; #10070
[mk-app] #10074 = #10070 #10073
[instance] 0x0 #10074
[attach-enode] #10074 0
[end-of-instance]
[mk-quant] #10074 internal_core__ops__function__impls__impl&__1_trait_impl_definition 4 #10071 #10073
[attach-var-names] #10074 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10075 tr_bound%core!ops.function.Fn. #3206 #45 #1249 #263
[mk-app] #10076 => #3368 #10075
[mk-app] #10077 pattern #10075
[mk-quant] #10078 internal_core__ops__function__impls__impl&__0_trait_impl_definition 4 #10077 #10076
[attach-var-names] #10078 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10079 or #3375 #10075
[inst-discovered] theory-solving 0x0 basic# ; #10076
[mk-app] #10080 = #10076 #10079
[instance] 0x0 #10080
[attach-enode] #10080 0
[end-of-instance]
[mk-quant] #10080 internal_core__ops__function__impls__impl&__0_trait_impl_definition 4 #10077 #10079
[attach-var-names] #10080 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10081 tr_bound%core!ops.function.FnOnce. #3407 #263 #1248 #1229
[mk-app] #10082 => #3406 #10081
[mk-app] #10083 pattern #10081
[mk-quant] #10084 internal_alloc__boxed__impl&__31_trait_impl_definition 6 #10083 #10082
[attach-var-names] #10084 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #10085 or #3414 #10081
[inst-discovered] theory-solving 0x0 basic# ; #10082
[mk-app] #10086 = #10082 #10085
[instance] 0x0 #10086
[attach-enode] #10086 0
[end-of-instance]
[mk-quant] #10086 internal_alloc__boxed__impl&__31_trait_impl_definition 6 #10083 #10085
[attach-var-names] #10086 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #10087 and #3403 #2967 #3404 #4441 #3045
[mk-app] #10088 tr_bound%core!ops.function.FnMut. #3407 #263 #1248 #1229
[mk-app] #10089 => #10087 #10088
[mk-app] #10090 pattern #10088
[mk-quant] #10091 internal_alloc__boxed__impl&__32_trait_impl_definition 6 #10090 #10089
[attach-var-names] #10091 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #10092 not #10087
[mk-app] #10093 or #10092 #10088
[inst-discovered] theory-solving 0x0 basic# ; #10089
[mk-app] #10094 = #10089 #10093
[instance] 0x0 #10094
[attach-enode] #10094 0
[end-of-instance]
[mk-quant] #10094 internal_alloc__boxed__impl&__32_trait_impl_definition 6 #10090 #10093
[attach-var-names] #10094 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #10095 tr_bound%core!ops.function.Fn. #1249 #263 #1248 #1229
[mk-app] #10096 and #3403 #2967 #3404 #10095 #3045
[mk-app] #10097 tr_bound%core!ops.function.Fn. #3407 #263 #1248 #1229
[mk-app] #10098 => #10096 #10097
[mk-app] #10099 pattern #10097
[mk-quant] #10100 internal_alloc__boxed__impl&__33_trait_impl_definition 6 #10099 #10098
[attach-var-names] #10100 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #10101 not #10096
[mk-app] #10102 or #10101 #10097
[inst-discovered] theory-solving 0x0 basic# ; #10098
[mk-app] #10103 = #10098 #10102
[instance] 0x0 #10103
[attach-enode] #10103 0
[end-of-instance]
[mk-quant] #10103 internal_alloc__boxed__impl&__33_trait_impl_definition 6 #10099 #10102
[attach-var-names] #10103 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #10104 tr_bound%core!ops.function.FnMut. #120 #46 #1249 #263
[mk-app] #10105 => #3387 #10104
[mk-app] #10106 pattern #10104
[mk-quant] #10107 internal_core__ops__function__impls__impl&__3_trait_impl_definition 4 #10106 #10105
[attach-var-names] #10107 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10108 or #3393 #10104
[inst-discovered] theory-solving 0x0 basic# ; #10105
[mk-app] #10109 = #10105 #10108
[instance] 0x0 #10109
[attach-enode] #10109 0
[end-of-instance]
[mk-quant] #10109 internal_core__ops__function__impls__impl&__3_trait_impl_definition 4 #10106 #10108
[attach-var-names] #10109 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10110 tr_bound%core!iter.range.Step. #120 #244
[mk-app] #10111 => #3425 #3060
[mk-quant] #10112 internal_core__iter__traits__collect__impl&__0_trait_impl_definition 2 #3075 #10111
[attach-var-names] #10112 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10113 or #3430 #3060
[inst-discovered] theory-solving 0x0 basic# ; #10111
[mk-app] #10114 = #10111 #10113
[instance] 0x0 #10114
[attach-enode] #10114 0
[end-of-instance]
[mk-quant] #10114 internal_core__iter__traits__collect__impl&__0_trait_impl_definition 2 #3075 #10113
[attach-var-names] #10114 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10115 tr_bound%core!iter.traits.collect.IntoIterator. #3452 #3146
[mk-app] #10116 => #3145 #10115
[mk-app] #10117 pattern #10115
[mk-quant] #10118 internal_core__array__impl&__13_trait_impl_definition 4 #10117 #10116
[attach-var-names] #10118 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10119 or #3152 #10115
[inst-discovered] theory-solving 0x0 basic# ; #10116
[mk-app] #10120 = #10116 #10119
[instance] 0x0 #10120
[attach-enode] #10120 0
[end-of-instance]
[mk-quant] #10120 internal_core__array__impl&__13_trait_impl_definition 4 #10117 #10119
[attach-var-names] #10120 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10121 tr_bound%core!iter.traits.collect.IntoIterator. #3483 #3182
[mk-app] #10122 => #2967 #10121
[mk-app] #10123 pattern #10121
[mk-quant] #10124 internal_core__slice__iter__impl&__1_trait_impl_definition 2 #10123 #10122
[attach-var-names] #10124 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10125 or #3188 #10121
[inst-discovered] theory-solving 0x0 basic# ; #10122
[mk-app] #10126 = #10122 #10125
[instance] 0x0 #10126
[attach-enode] #10126 0
[end-of-instance]
[mk-quant] #10126 internal_core__slice__iter__impl&__1_trait_impl_definition 2 #10123 #10125
[attach-var-names] #10126 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10127 tr_bound%core!iter.traits.collect.IntoIterator. #3514 #3515
[mk-app] #10128 => #3269 #10127
[mk-app] #10129 pattern #10127
[mk-quant] #10130 internal_alloc__boxed__iter__impl&__11_trait_impl_definition 4 #10129 #10128
[attach-var-names] #10130 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10131 or #3276 #10127
[inst-discovered] theory-solving 0x0 basic# ; #10128
[mk-app] #10132 = #10128 #10131
[instance] 0x0 #10132
[attach-enode] #10132 0
[end-of-instance]
[mk-quant] #10132 internal_alloc__boxed__iter__impl&__11_trait_impl_definition 4 #10129 #10131
[attach-var-names] #10132 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10133 tr_bound%core!iter.traits.collect.IntoIterator. #3452 #3270
[mk-app] #10134 => #3269 #10133
[mk-app] #10135 pattern #10133
[mk-quant] #10136 internal_alloc__vec__impl&__18_trait_impl_definition 4 #10135 #10134
[attach-var-names] #10136 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10137 or #3276 #10133
[inst-discovered] theory-solving 0x0 basic# ; #10134
[mk-app] #10138 = #10134 #10137
[instance] 0x0 #10138
[attach-enode] #10138 0
[end-of-instance]
[mk-quant] #10138 internal_alloc__vec__impl&__18_trait_impl_definition 4 #10135 #10137
[attach-var-names] #10138 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10139 tr_bound%core!iter.traits.collect.IntoIterator. #120 #3572
[mk-app] #10140 => #3145 #10139
[mk-app] #10141 pattern #10139
[mk-quant] #10142 internal_core__array__impl&__14_trait_impl_definition 4 #10141 #10140
[attach-var-names] #10142 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10143 or #3152 #10139
[inst-discovered] theory-solving 0x0 basic# ; #10140
[mk-app] #10144 = #10140 #10143
[instance] 0x0 #10144
[attach-enode] #10144 0
[end-of-instance]
[mk-quant] #10144 internal_core__array__impl&__14_trait_impl_definition 4 #10141 #10143
[attach-var-names] #10144 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10145 tr_bound%core!iter.traits.collect.IntoIterator. #120 #3603
[mk-app] #10146 => #2967 #10145
[mk-app] #10147 pattern #10145
[mk-quant] #10148 internal_core__slice__iter__impl&__2_trait_impl_definition 2 #10147 #10146
[attach-var-names] #10148 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10149 or #3188 #10145
[inst-discovered] theory-solving 0x0 basic# ; #10146
[mk-app] #10150 = #10146 #10149
[instance] 0x0 #10150
[attach-enode] #10150 0
[end-of-instance]
[mk-quant] #10150 internal_core__slice__iter__impl&__2_trait_impl_definition 2 #10147 #10149
[attach-var-names] #10150 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10151 tr_bound%core!iter.traits.collect.IntoIterator. #120 #3633
[mk-app] #10152 => #3269 #10151
[mk-app] #10153 pattern #10151
[mk-quant] #10154 internal_alloc__boxed__iter__impl&__12_trait_impl_definition 4 #10153 #10152
[attach-var-names] #10154 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10155 or #3276 #10151
[inst-discovered] theory-solving 0x0 basic# ; #10152
[mk-app] #10156 = #10152 #10155
[instance] 0x0 #10156
[attach-enode] #10156 0
[end-of-instance]
[mk-quant] #10156 internal_alloc__boxed__iter__impl&__12_trait_impl_definition 4 #10153 #10155
[attach-var-names] #10156 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10157 tr_bound%core!iter.traits.collect.IntoIterator. #120 #3662
[mk-app] #10158 => #3269 #10157
[mk-app] #10159 pattern #10157
[mk-quant] #10160 internal_alloc__vec__impl&__19_trait_impl_definition 4 #10159 #10158
[attach-var-names] #10160 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10161 or #3276 #10157
[inst-discovered] theory-solving 0x0 basic# ; #10158
[mk-app] #10162 = #10158 #10161
[instance] 0x0 #10162
[attach-enode] #10162 0
[end-of-instance]
[mk-quant] #10162 internal_alloc__vec__impl&__19_trait_impl_definition 4 #10159 #10161
[attach-var-names] #10162 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10163 tr_bound%core!iter.traits.collect.IntoIterator. #3513 #3515
[mk-app] #10164 => #3269 #10163
[mk-app] #10165 pattern #10163
[mk-quant] #10166 internal_alloc__boxed__iter__impl&__10_trait_impl_definition 4 #10165 #10164
[attach-var-names] #10166 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10167 or #3276 #10163
[inst-discovered] theory-solving 0x0 basic# ; #10164
[mk-app] #10168 = #10164 #10167
[instance] 0x0 #10168
[attach-enode] #10168 0
[end-of-instance]
[mk-quant] #10168 internal_alloc__boxed__iter__impl&__10_trait_impl_definition 4 #10165 #10167
[attach-var-names] #10168 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10169 tr_bound%core!iter.traits.collect.IntoIterator. #120 #3270
[mk-app] #10170 => #3269 #10169
[mk-app] #10171 pattern #10169
[mk-quant] #10172 internal_alloc__vec__impl&__17_trait_impl_definition 4 #10171 #10170
[attach-var-names] #10172 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10173 or #3276 #10169
[inst-discovered] theory-solving 0x0 basic# ; #10170
[mk-app] #10174 = #10170 #10173
[instance] 0x0 #10174
[attach-enode] #10174 0
[end-of-instance]
[mk-quant] #10174 internal_alloc__vec__impl&__17_trait_impl_definition 4 #10171 #10173
[attach-var-names] #10174 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10175 tr_bound%core!iter.traits.iterator.Iterator. #3407 #263
[mk-app] #10176 => #3808 #10175
[mk-app] #10177 pattern #10175
[mk-quant] #10178 internal_alloc__boxed__iter__impl&__0_trait_impl_definition 4 #10177 #10176
[attach-var-names] #10178 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10179 or #3815 #10175
[inst-discovered] theory-solving 0x0 basic# ; #10176
[mk-app] #10180 = #10176 #10179
[instance] 0x0 #10180
[attach-enode] #10180 0
[end-of-instance]
[mk-quant] #10180 internal_alloc__boxed__iter__impl&__0_trait_impl_definition 4 #10177 #10179
[attach-var-names] #10180 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #10181 and #2967 #3048
[mk-app] #10182 tr_bound%core!fmt.Debug. #120 #3749
[mk-app] #10183 => #10181 #10182
[mk-app] #10184 pattern #10182
[mk-quant] #10185 internal_core__ops__range__impl&__1_trait_impl_definition 2 #10184 #10183
[attach-var-names] #10185 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #10186 not #10181
[mk-app] #10187 or #10186 #10182
[inst-discovered] theory-solving 0x0 basic# ; #10183
[mk-app] #10188 = #10183 #10187
[instance] 0x0 #10188
[attach-enode] #10188 0
[end-of-instance]
[mk-quant] #10188 internal_core__ops__range__impl&__1_trait_impl_definition 2 #10184 #10187
[attach-var-names] #10188 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #10189 tr_bound%core!fmt.Debug. #1249 #263
[mk-app] #10190 and #3106 #3144 #10189
[mk-app] #10191 tr_bound%core!fmt.Debug. #120 #3146
[mk-app] #10192 => #10190 #10191
[mk-app] #10193 pattern #10191
[mk-quant] #10194 internal_core__array__impl&__12_trait_impl_definition 4 #10193 #10192
[attach-var-names] #10194 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10195 not #10190
[mk-app] #10196 or #10195 #10191
[inst-discovered] theory-solving 0x0 basic# ; #10192
[mk-app] #10197 = #10192 #10196
[instance] 0x0 #10197
[attach-enode] #10197 0
[end-of-instance]
[mk-quant] #10197 internal_core__array__impl&__12_trait_impl_definition 4 #10193 #10196
[attach-var-names] #10197 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10198 tr_bound%core!fmt.Debug. #120 #1716
[mk-app] #10199 => #10181 #10198
[mk-app] #10200 pattern #10198
[mk-quant] #10201 internal_core__option__impl&__55_trait_impl_definition 2 #10200 #10199
[attach-var-names] #10201 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10202 or #10186 #10198
[inst-discovered] theory-solving 0x0 basic# ; #10199
[mk-app] #10203 = #10199 #10202
[instance] 0x0 #10203
[attach-enode] #10203 0
[end-of-instance]
[mk-quant] #10203 internal_core__option__impl&__55_trait_impl_definition 2 #10200 #10202
[attach-var-names] #10203 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10204 and #3106 #2967 #10189 #3048
[mk-app] #10205 tr_bound%core!fmt.Debug. #120 #6146
[mk-app] #10206 => #10204 #10205
[mk-app] #10207 pattern #10205
[mk-quant] #10208 internal_core__result__impl&__31_trait_impl_definition 4 #10207 #10206
[attach-var-names] #10208 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10209 not #10204
[mk-app] #10210 or #10209 #10205
[inst-discovered] theory-solving 0x0 basic# ; #10206
[mk-app] #10211 = #10206 #10210
[instance] 0x0 #10211
[attach-enode] #10211 0
[end-of-instance]
[mk-quant] #10211 internal_core__result__impl&__31_trait_impl_definition 4 #10207 #10210
[attach-var-names] #10211 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10212 tr_bound%core!fmt.Debug. #120 #211
[mk-app] #10213 tr_bound%core!fmt.Debug. #120 #3308
[attach-meaning] #280 arith 32
[mk-app] #10214 tr_bound%core!fmt.Debug. #120 #3313
[mk-app] #10215 tr_bound%core!fmt.Debug. #120 #203
[mk-app] #10216 tr_bound%core!fmt.Debug. #3206 #45
[mk-app] #10217 => #3048 #10216
[mk-app] #10218 pattern #10216
[mk-quant] #10219 internal_core__fmt__impl&__80_trait_impl_definition 2 #10218 #10217
[attach-var-names] #10219 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10220 not #3048
[mk-app] #10221 or #10220 #10216
[inst-discovered] theory-solving 0x0 basic# ; #10217
[mk-app] #10222 = #10217 #10221
[instance] 0x0 #10222
[attach-enode] #10222 0
[end-of-instance]
[mk-quant] #10222 internal_core__fmt__impl&__80_trait_impl_definition 2 #10218 #10221
[attach-var-names] #10222 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10223 tr_bound%core!fmt.Debug. #120 #46
[mk-app] #10224 => #3048 #10223
[mk-app] #10225 pattern #10223
[mk-quant] #10226 internal_core__fmt__impl&__81_trait_impl_definition 2 #10225 #10224
[attach-var-names] #10226 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10227 or #10220 #10223
[inst-discovered] theory-solving 0x0 basic# ; #10224
[mk-app] #10228 = #10224 #10227
[instance] 0x0 #10228
[attach-enode] #10228 0
[end-of-instance]
[mk-quant] #10228 internal_core__fmt__impl&__81_trait_impl_definition 2 #10225 #10227
[attach-var-names] #10228 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10229 tr_bound%core!fmt.Debug. #120 #135
[mk-app] #10230 tr_bound%core!fmt.Debug. #1198 #1683
[mk-app] #10231 tr_bound%core!fmt.Debug. #120 #244
[mk-app] #10232 tr_bound%core!fmt.Debug. #3173 #3163
[mk-app] #10233 pattern #10232
[mk-quant] #10234 internal_core__fmt__impl&__27_trait_impl_definition 2 #10233 #10232
[attach-var-names] #10234 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10235 tr_bound%core!fmt.Debug. #120 #3163
[mk-app] #10236 pattern #10235
[mk-quant] #10237 internal_core__fmt__impl&__28_trait_impl_definition 2 #10236 #10235
[attach-var-names] #10237 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10238 tr_bound%core!fmt.Debug. #3330 #3349
[mk-app] #10239 => #10204 #10238
[mk-app] #10240 pattern #10238
[mk-quant] #10241 internal_core__fmt__impl&__106_trait_impl_definition 4 #10240 #10239
[attach-var-names] #10241 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|)
[mk-app] #10242 or #10209 #10238
[inst-discovered] theory-solving 0x0 basic# ; #10239
[mk-app] #10243 = #10239 #10242
[instance] 0x0 #10243
[attach-enode] #10243 0
[end-of-instance]
[mk-quant] #10243 internal_core__fmt__impl&__106_trait_impl_definition 4 #10240 #10242
[attach-var-names] #10243 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|)
[mk-app] #10244 tr_bound%core!fmt.Debug. #3330 #3331
[mk-app] #10245 => #10181 #10244
[mk-app] #10246 pattern #10244
[mk-quant] #10247 internal_core__fmt__impl&__107_trait_impl_definition 2 #10246 #10245
[attach-var-names] #10247 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10248 or #10186 #10244
[inst-discovered] theory-solving 0x0 basic# ; #10245
[mk-app] #10249 = #10245 #10248
[instance] 0x0 #10249
[attach-enode] #10249 0
[end-of-instance]
[mk-quant] #10249 internal_core__fmt__impl&__107_trait_impl_definition 2 #10246 #10248
[attach-var-names] #10249 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10250 tr_bound%core!fmt.Debug. #1198 #3182
[mk-app] #10251 => #10181 #10250
[mk-app] #10252 pattern #10250
[mk-quant] #10253 internal_core__fmt__impl&__29_trait_impl_definition 2 #10252 #10251
[attach-var-names] #10253 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10254 or #10186 #10250
[inst-discovered] theory-solving 0x0 basic# ; #10251
[mk-app] #10255 = #10251 #10254
[instance] 0x0 #10255
[attach-enode] #10255 0
[end-of-instance]
[mk-quant] #10255 internal_core__fmt__impl&__29_trait_impl_definition 2 #10252 #10254
[attach-var-names] #10255 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10256 tr_bound%core!fmt.Debug. #120 #3506
[mk-app] #10257 => #10181 #10256
[mk-app] #10258 pattern #10256
[mk-quant] #10259 internal_core__slice__iter__impl&__3_trait_impl_definition 2 #10258 #10257
[attach-var-names] #10259 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10260 or #10186 #10256
[inst-discovered] theory-solving 0x0 basic# ; #10257
[mk-app] #10261 = #10257 #10260
[instance] 0x0 #10261
[attach-enode] #10261 0
[end-of-instance]
[mk-quant] #10261 internal_core__slice__iter__impl&__3_trait_impl_definition 2 #10258 #10260
[attach-var-names] #10261 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10262 tr_bound%core!fmt.Debug. #120 #3626
[mk-app] #10263 => #10181 #10262
[mk-app] #10264 pattern #10262
[mk-quant] #10265 internal_core__slice__iter__impl&__9_trait_impl_definition 2 #10264 #10263
[attach-var-names] #10265 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10266 or #10186 #10262
[inst-discovered] theory-solving 0x0 basic# ; #10263
[mk-app] #10267 = #10263 #10266
[instance] 0x0 #10267
[attach-enode] #10267 0
[end-of-instance]
[mk-quant] #10267 internal_core__slice__iter__impl&__9_trait_impl_definition 2 #10264 #10266
[attach-var-names] #10267 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10268 tr_bound%core!fmt.Debug. #120 #1321
[mk-app] #10269 and #2967 #10189 #3045
[mk-app] #10270 tr_bound%core!fmt.Debug. #3407 #263
[mk-app] #10271 => #10269 #10270
[mk-app] #10272 pattern #10270
[mk-quant] #10273 internal_alloc__boxed__impl&__25_trait_impl_definition 4 #10272 #10271
[attach-var-names] #10273 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10274 not #10269
[mk-app] #10275 or #10274 #10270
[inst-discovered] theory-solving 0x0 basic# ; #10271
[mk-app] #10276 = #10271 #10275
[instance] 0x0 #10276
[attach-enode] #10276 0
[end-of-instance]
[mk-quant] #10276 internal_alloc__boxed__impl&__25_trait_impl_definition 4 #10272 #10275
[attach-var-names] #10276 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10277 tr_bound%core!fmt.Debug. #9642 #263
[mk-app] #10278 => #10269 #10277
[mk-app] #10279 pattern #10277
[mk-quant] #10280 internal_alloc__rc__impl&__51_trait_impl_definition 4 #10279 #10278
[attach-var-names] #10280 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10281 or #10274 #10277
[inst-discovered] theory-solving 0x0 basic# ; #10278
[mk-app] #10282 = #10278 #10281
[instance] 0x0 #10282
[attach-enode] #10282 0
[end-of-instance]
[mk-quant] #10282 internal_alloc__rc__impl&__51_trait_impl_definition 4 #10279 #10281
[attach-var-names] #10282 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10283 tr_bound%core!fmt.Debug. #120 #1341
[mk-app] #10284 tr_bound%core!fmt.Debug. #9651 #263
[mk-app] #10285 => #10269 #10284
[mk-app] #10286 pattern #10284
[mk-quant] #10287 internal_alloc__sync__impl&__60_trait_impl_definition 4 #10286 #10285
[attach-var-names] #10287 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10288 or #10274 #10284
[inst-discovered] theory-solving 0x0 basic# ; #10285
[mk-app] #10289 = #10285 #10288
[instance] 0x0 #10289
[attach-enode] #10289 0
[end-of-instance]
[mk-quant] #10289 internal_alloc__sync__impl&__60_trait_impl_definition 4 #10286 #10288
[attach-var-names] #10289 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10290 and #3106 #2967 #10189 #3045
[mk-app] #10291 tr_bound%core!fmt.Debug. #120 #3699
[mk-app] #10292 => #10290 #10291
[mk-app] #10293 pattern #10291
[mk-quant] #10294 internal_alloc__vec__into_iter__impl&__1_trait_impl_definition 4 #10293 #10292
[attach-var-names] #10294 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10295 not #10290
[mk-app] #10296 or #10295 #10291
[inst-discovered] theory-solving 0x0 basic# ; #10292
[mk-app] #10297 = #10292 #10296
[instance] 0x0 #10297
[attach-enode] #10297 0
[end-of-instance]
[mk-quant] #10297 internal_alloc__vec__into_iter__impl&__1_trait_impl_definition 4 #10293 #10296
[attach-var-names] #10297 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10298 tr_bound%core!fmt.Debug. #120 #3270
[mk-app] #10299 => #10290 #10298
[mk-app] #10300 pattern #10298
[mk-quant] #10301 internal_alloc__vec__impl&__28_trait_impl_definition 4 #10300 #10299
[attach-var-names] #10301 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10302 or #10295 #10298
[inst-discovered] theory-solving 0x0 basic# ; #10299
[mk-app] #10303 = #10299 #10302
[instance] 0x0 #10303
[attach-enode] #10303 0
[end-of-instance]
[mk-quant] #10303 internal_alloc__vec__impl&__28_trait_impl_definition 4 #10300 #10302
[attach-var-names] #10303 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10304 tr_bound%core!fmt.Debug. #9678 #45
[mk-app] #10305 => #2967 #10304
[mk-app] #10306 pattern #10304
[mk-quant] #10307 internal_verus_builtin__impl&__0_trait_impl_definition 2 #10306 #10305
[attach-var-names] #10307 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10308 or #3188 #10304
[inst-discovered] theory-solving 0x0 basic# ; #10305
[mk-app] #10309 = #10305 #10308
[instance] 0x0 #10309
[attach-enode] #10309 0
[end-of-instance]
[mk-quant] #10309 internal_verus_builtin__impl&__0_trait_impl_definition 2 #10306 #10308
[attach-var-names] #10309 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10310 tr_bound%core!alloc.Allocator. #3206 #45
[mk-app] #10311 => #3045 #10310
[mk-app] #10312 pattern #10310
[mk-quant] #10313 internal_core__alloc__impl&__2_trait_impl_definition 2 #10312 #10311
[attach-var-names] #10313 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10314 not #3045
[mk-app] #10315 or #10314 #10310
[inst-discovered] theory-solving 0x0 basic# ; #10311
[mk-app] #10316 = #10311 #10315
[instance] 0x0 #10316
[attach-enode] #10316 0
[end-of-instance]
[mk-quant] #10316 internal_core__alloc__impl&__2_trait_impl_definition 2 #10312 #10315
[attach-var-names] #10316 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10317 tr_bound%core!alloc.Allocator. #120 #46
[mk-app] #10318 => #3045 #10317
[mk-app] #10319 pattern #10317
[mk-quant] #10320 internal_core__alloc__impl&__3_trait_impl_definition 2 #10319 #10318
[attach-var-names] #10320 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10321 or #10314 #10317
[inst-discovered] theory-solving 0x0 basic# ; #10318
[mk-app] #10322 = #10318 #10321
[instance] 0x0 #10322
[attach-enode] #10322 0
[end-of-instance]
[mk-quant] #10322 internal_core__alloc__impl&__3_trait_impl_definition 2 #10319 #10321
[attach-var-names] #10322 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10323 and #2967 #6368 #3045
[mk-app] #10324 tr_bound%core!alloc.Allocator. #3407 #263
[mk-app] #10325 => #10323 #10324
[mk-app] #10326 pattern #10324
[mk-quant] #10327 internal_alloc__boxed__impl&__49_trait_impl_definition 4 #10326 #10325
[attach-var-names] #10327 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10328 not #10323
[mk-app] #10329 or #10328 #10324
[inst-discovered] theory-solving 0x0 basic# ; #10325
[mk-app] #10330 = #10325 #10329
[instance] 0x0 #10330
[attach-enode] #10330 0
[end-of-instance]
[mk-quant] #10330 internal_alloc__boxed__impl&__49_trait_impl_definition 4 #10326 #10329
[attach-var-names] #10330 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10331 tr_bound%core!alloc.Allocator. #9642 #263
[mk-app] #10332 => #10323 #10331
[mk-app] #10333 pattern #10331
[mk-quant] #10334 internal_alloc__rc__impl&__116_trait_impl_definition 4 #10333 #10332
[attach-var-names] #10334 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10335 or #10328 #10331
[inst-discovered] theory-solving 0x0 basic# ; #10332
[mk-app] #10336 = #10332 #10335
[instance] 0x0 #10336
[attach-enode] #10336 0
[end-of-instance]
[mk-quant] #10336 internal_alloc__rc__impl&__116_trait_impl_definition 4 #10333 #10335
[attach-var-names] #10336 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10337 tr_bound%core!alloc.Allocator. #9651 #263
[mk-app] #10338 => #10323 #10337
[mk-app] #10339 pattern #10337
[mk-quant] #10340 internal_alloc__sync__impl&__118_trait_impl_definition 4 #10339 #10338
[attach-var-names] #10340 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10341 or #10328 #10337
[inst-discovered] theory-solving 0x0 basic# ; #10338
[mk-app] #10342 = #10338 #10341
[instance] 0x0 #10342
[attach-enode] #10342 0
[end-of-instance]
[mk-quant] #10342 internal_alloc__sync__impl&__118_trait_impl_definition 4 #10339 #10341
[attach-var-names] #10342 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10343 tr_bound%u_tokenizer!text.StrShim. #1198 #1683
[mk-app] #10344 tr_bound%u_tokenizer!text.StrShim. #120 #1341
[mk-app] #10345 tr_bound%u_tokenizer!text.StrShim. #3206 #45
[mk-app] #10346 => #3121 #10345
[mk-app] #10347 pattern #10345
[mk-quant] #10348 internal_u_tokenizer__text__impl&__4_trait_impl_definition 2 #10347 #10346
[attach-var-names] #10348 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10349 not #3121
[mk-app] #10350 or #10349 #10345
[inst-discovered] theory-solving 0x0 basic# ; #10346
[mk-app] #10351 = #10346 #10350
[instance] 0x0 #10351
[attach-enode] #10351 0
[end-of-instance]
[mk-quant] #10351 internal_u_tokenizer__text__impl&__4_trait_impl_definition 2 #10347 #10350
[attach-var-names] #10351 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10352 tr_bound%u_tokenizer!text.Show. #120 #1341
[mk-app] #10353 tr_bound%u_tokenizer!text.Show. #1198 #1683
[mk-app] #10354 tr_bound%u_tokenizer!text.Show. #3206 #45
[mk-app] #10355 => #3124 #10354
[mk-app] #10356 pattern #10354
[mk-quant] #10357 internal_u_tokenizer__text__impl&__11_trait_impl_definition 2 #10356 #10355
[attach-var-names] #10357 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10358 not #3124
[mk-app] #10359 or #10358 #10354
[inst-discovered] theory-solving 0x0 basic# ; #10355
[mk-app] #10360 = #10355 #10359
[instance] 0x0 #10360
[attach-enode] #10360 0
[end-of-instance]
[mk-quant] #10360 internal_u_tokenizer__text__impl&__11_trait_impl_definition 2 #10356 #10359
[attach-var-names] #10360 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10361 tr_bound%u_tokenizer!lst.Length. #1198 #1683
[mk-app] #10362 tr_bound%u_tokenizer!lst.Length. #120 #1341
[mk-app] #10363 TYPE%alloc!vec.Vec. #44 #45 #120 #1321
[mk-app] #10364 tr_bound%u_tokenizer!lst.Length. #120 #10363
[mk-app] #10365 => #2967 #10364
[mk-app] #10366 pattern #10364
[mk-quant] #10367 internal_u_tokenizer__lst__impl&__2_trait_impl_definition 2 #10366 #10365
[attach-var-names] #10367 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10368 or #3188 #10364
[inst-discovered] theory-solving 0x0 basic# ; #10365
[mk-app] #10369 = #10365 #10368
[instance] 0x0 #10369
[attach-enode] #10369 0
[end-of-instance]
[mk-quant] #10369 internal_u_tokenizer__lst__impl&__2_trait_impl_definition 2 #10366 #10368
[attach-var-names] #10369 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10370 tr_bound%u_tokenizer!lst.Length. #3206 #45
[mk-app] #10371 => #3127 #10370
[mk-app] #10372 pattern #10370
[mk-quant] #10373 internal_u_tokenizer__lst__impl&__3_trait_impl_definition 2 #10372 #10371
[attach-var-names] #10373 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10374 not #3127
[mk-app] #10375 or #10374 #10370
[inst-discovered] theory-solving 0x0 basic# ; #10371
[mk-app] #10376 = #10371 #10375
[instance] 0x0 #10376
[attach-enode] #10376 0
[end-of-instance]
[mk-quant] #10376 internal_u_tokenizer__lst__impl&__3_trait_impl_definition 2 #10372 #10375
[attach-var-names] #10376 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10377 tr_bound%u_tokenizer!lst.Emptiness. #1198 #1683
[mk-app] #10378 tr_bound%u_tokenizer!lst.Emptiness. #120 #1341
[mk-app] #10379 tr_bound%u_tokenizer!lst.Emptiness. #120 #10363
[mk-app] #10380 => #2967 #10379
[mk-app] #10381 pattern #10379
[mk-quant] #10382 internal_u_tokenizer__lst__impl&__6_trait_impl_definition 2 #10381 #10380
[attach-var-names] #10382 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10383 or #3188 #10379
[inst-discovered] theory-solving 0x0 basic# ; #10380
[mk-app] #10384 = #10380 #10383
[instance] 0x0 #10384
[attach-enode] #10384 0
[end-of-instance]
[mk-quant] #10384 internal_u_tokenizer__lst__impl&__6_trait_impl_definition 2 #10381 #10383
[attach-var-names] #10384 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10385 tr_bound%u_tokenizer!lst.Emptiness. #3206 #45
[mk-app] #10386 => #3130 #10385
[mk-app] #10387 pattern #10385
[mk-quant] #10388 internal_u_tokenizer__lst__impl&__7_trait_impl_definition 2 #10387 #10386
[attach-var-names] #10388 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10389 not #3130
[mk-app] #10390 or #10389 #10385
[inst-discovered] theory-solving 0x0 basic# ; #10386
[mk-app] #10391 = #10386 #10390
[instance] 0x0 #10391
[attach-enode] #10391 0
[end-of-instance]
[mk-quant] #10391 internal_u_tokenizer__lst__impl&__7_trait_impl_definition 2 #10387 #10390
[attach-var-names] #10391 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10392 tr_bound%u_tokenizer!lex.ClassShim. #120 #244
[mk-app] #10393 tr_bound%u_tokenizer!lex.Pushed. #120 #1341 #120 #244
[mk-app] #10394 tr_bound%u_tokenizer!lex.Pushed. #120 #10363 #44 #45
[mk-app] #10395 => #2967 #10394
[mk-app] #10396 pattern #10394
[mk-quant] #10397 internal_u_tokenizer__lex__impl&__6_trait_impl_definition 2 #10396 #10395
[attach-var-names] #10397 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10398 or #3188 #10394
[inst-discovered] theory-solving 0x0 basic# ; #10395
[mk-app] #10399 = #10395 #10398
[instance] 0x0 #10399
[attach-enode] #10399 0
[end-of-instance]
[mk-quant] #10399 internal_u_tokenizer__lex__impl&__6_trait_impl_definition 2 #10396 #10398
[attach-var-names] #10399 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10400 tr_bound%core!ops.function.Fn. #120 #2955 #3840 #3841
[mk-app] #10401 => #3051 #10400
[mk-app] #10402 pattern #10400
[mk-quant] #10403 internal_core__iter__traits__iterator__Iterator__next__impl_fndef&__Fn_trait_impl_definition 2 #10402 #10401
[attach-var-names] #10403 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10404 or #3057 #10400
[inst-discovered] theory-solving 0x0 basic# ; #10401
[mk-app] #10405 = #10401 #10404
[instance] 0x0 #10405
[attach-enode] #10405 0
[end-of-instance]
[mk-quant] #10405 internal_core__iter__traits__iterator__Iterator__next__impl_fndef&__Fn_trait_impl_definition 2 #10402 #10404
[attach-var-names] #10405 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10406 tr_bound%core!ops.function.FnMut. #120 #2955 #3840 #3841
[mk-app] #10407 => #3051 #10406
[mk-app] #10408 pattern #10406
[mk-quant] #10409 internal_core__iter__traits__iterator__Iterator__next__impl_fndef&__FnMut_trait_impl_definition 2 #10408 #10407
[attach-var-names] #10409 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10410 or #3057 #10406
[inst-discovered] theory-solving 0x0 basic# ; #10407
[mk-app] #10411 = #10407 #10410
[instance] 0x0 #10411
[attach-enode] #10411 0
[end-of-instance]
[mk-quant] #10411 internal_core__iter__traits__iterator__Iterator__next__impl_fndef&__FnMut_trait_impl_definition 2 #10408 #10410
[attach-var-names] #10411 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10412 tr_bound%core!ops.function.FnOnce. #120 #2955 #3840 #3841
[mk-app] #10413 => #3051 #10412
[mk-app] #10414 pattern #10412
[mk-quant] #10415 internal_core__iter__traits__iterator__Iterator__next__impl_fndef&__FnOnce_trait_impl_definition 2 #10414 #10413
[attach-var-names] #10415 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10416 or #3057 #10412
[inst-discovered] theory-solving 0x0 basic# ; #10413
[mk-app] #10417 = #10413 #10416
[instance] 0x0 #10417
[attach-enode] #10417 0
[end-of-instance]
[mk-quant] #10417 internal_core__iter__traits__iterator__Iterator__next__impl_fndef&__FnOnce_trait_impl_definition 2 #10414 #10416
[attach-var-names] #10417 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #10418 tr_bound%core!ops.function.Fn. #120 #3857 #3840 #3859
[mk-app] #10419 => #3748 #10418
[mk-app] #10420 pattern #10418
[mk-quant] #10421 internal_core__iter__range__impl&__6__next__impl_fndef&__Fn_trait_impl_definition 2 #10420 #10419
[attach-var-names] #10421 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10422 or #3755 #10418
[inst-discovered] theory-solving 0x0 basic# ; #10419
[mk-app] #10423 = #10419 #10422
[instance] 0x0 #10423
[attach-enode] #10423 0
[end-of-instance]
[mk-quant] #10423 internal_core__iter__range__impl&__6__next__impl_fndef&__Fn_trait_impl_definition 2 #10420 #10422
[attach-var-names] #10423 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10424 tr_bound%core!ops.function.FnMut. #120 #3857 #3840 #3859
[mk-app] #10425 => #3748 #10424
[mk-app] #10426 pattern #10424
[mk-quant] #10427 internal_core__iter__range__impl&__6__next__impl_fndef&__FnMut_trait_impl_definition 2 #10426 #10425
[attach-var-names] #10427 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10428 or #3755 #10424
[inst-discovered] theory-solving 0x0 basic# ; #10425
[mk-app] #10429 = #10425 #10428
[instance] 0x0 #10429
[attach-enode] #10429 0
[end-of-instance]
[mk-quant] #10429 internal_core__iter__range__impl&__6__next__impl_fndef&__FnMut_trait_impl_definition 2 #10426 #10428
[attach-var-names] #10429 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10430 tr_bound%core!ops.function.FnOnce. #120 #3857 #3840 #3859
[mk-app] #10431 => #3748 #10430
[mk-app] #10432 pattern #10430
[mk-quant] #10433 internal_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_trait_impl_definition 2 #10432 #10431
[attach-var-names] #10433 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #10434 or #3755 #10430
[inst-discovered] theory-solving 0x0 basic# ; #10431
[mk-app] #10435 = #10431 #10434
[instance] 0x0 #10435
[attach-enode] #10435 0
[end-of-instance]
[mk-quant] #10435 internal_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_trait_impl_definition 2 #10432 #10434
[attach-var-names] #10435 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-var] #10436 2
[mk-app] #10437 req%u_tokenizer!text.lemma_bpos. #10436 #219 #122
[mk-app] #10438 %%global_location_label%%25
[mk-app] #10439 Poly%vstd!seq.Seq<char.>. #10436
[mk-app] #10440 vstd!seq.Seq.len.? #120 #244 #10439
[mk-app] #10441 and #630 #6845
[mk-app] #10442 <= #122 #10440
[mk-app] #10443 and #10441 #10442
[mk-app] #10444 => #10438 #10443
[mk-app] #10445 = #10437 #10444
[mk-app] #10446 pattern #10437
[mk-quant] #10447 internal_req__u_tokenizer!text.lemma_bpos._definition 3 #10446 #10445
[attach-var-names] #10447 (|j!| ; |Int|) (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #630
[mk-app] #10448 = #630 #635
[instance] 0x0 #10448
[attach-enode] #10448 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10448 * #363 #122
[mk-app] #10449 + #10448 #219
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #6845
[mk-app] #10448 = #6845 #6855
[instance] 0x0 #10448
[attach-enode] #10448 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10448 * #363 #10440
[mk-app] #10449 + #122 #10448
[mk-app] #10450 <= #10449 #334
[inst-discovered] theory-solving 0x0 arith# ; #10442
[mk-app] #10451 = #10442 #10450
[instance] 0x0 #10451
[attach-enode] #10451 0
[end-of-instance]
[mk-app] #10451 and #635 #6855 #10450
[mk-app] #10452 not #10438
[mk-app] #10453 or #10452 #10451
[mk-app] #10454 => #10438 #10451
[inst-discovered] theory-solving 0x0 basic# ; #10454
[mk-app] #10455 = #10454 #10453
[instance] 0x0 #10455
[attach-enode] #10455 0
[end-of-instance]
[mk-app] #10454 = #10437 #10453
[mk-quant] #10455 internal_req__u_tokenizer!text.lemma_bpos._definition 3 #10446 #10454
[attach-var-names] #10455 (|j!| ; |Int|) (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10456 ens%u_tokenizer!text.lemma_bpos. #10436 #219 #122
[mk-app] #10457 u_tokenizer!text.bpos.? #10439 #165
[mk-app] #10458 u_tokenizer!text.bpos.? #10439 #769
[mk-app] #10459 vstd!seq.Seq.subrange.? #120 #244 #10439 #769 #165
[mk-app] #10460 u_tokenizer!text.blen.? #10459
[mk-app] #10461 Add #10458 #10460
[mk-app] #10462 = #10457 #10461
[mk-app] #10463 Sub #122 #219
[mk-app] #10464 Add #10458 #10463
[mk-app] #10465 >= #10457 #10464
[mk-app] #10466 >= #10458 #219
[mk-app] #10467 I #10440
[mk-app] #10468 u_tokenizer!text.bpos.? #10439 #10467
[mk-app] #10469 u_tokenizer!text.blen.? #10439
[mk-app] #10470 = #10468 #10469
[mk-app] #10471 u_tokenizer!text.bpos.? #10439 #5644
[mk-app] #10472 = #10471 #334
[mk-app] #10473 and #10462 #10465 #10466 #10470 #10472
[mk-app] #10474 = #10456 #10473
[mk-app] #10475 pattern #10456
[mk-quant] #10476 internal_ens__u_tokenizer!text.lemma_bpos._definition 3 #10475 #10474
[attach-var-names] #10476 (|j!| ; |Int|) (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[attach-meaning] #363 arith (- 1)
[mk-app] #10477 * #363 #10464
[mk-app] #10478 + #10457 #10477
[mk-app] #10479 >= #10478 #334
[inst-discovered] theory-solving 0x0 arith# ; #10465
[mk-app] #10480 = #10465 #10479
[instance] 0x0 #10480
[attach-enode] #10480 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10480 + #562 #10458
[attach-meaning] #363 arith (- 1)
[mk-app] #10481 * #363 #10458
[mk-app] #10482 + #219 #10481
[mk-app] #10480 <= #10482 #334
[inst-discovered] theory-solving 0x0 arith# ; #10466
[mk-app] #10483 = #10466 #10480
[instance] 0x0 #10483
[attach-enode] #10483 0
[end-of-instance]
[mk-app] #10483 and #10462 #10479 #10480 #10470 #10472
[mk-app] #10484 = #10456 #10483
[mk-quant] #10485 internal_ens__u_tokenizer!text.lemma_bpos._definition 3 #10475 #10484
[attach-var-names] #10485 (|j!| ; |Int|) (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[mk-var] #10486 1
[mk-app] #10487 req%u_tokenizer!text.lemma_step. #10486 #122
[mk-app] #10488 %%global_location_label%%26
[mk-app] #10489 Poly%vstd!seq.Seq<char.>. #10486
[mk-app] #10490 vstd!seq.Seq.len.? #120 #244 #10489
[mk-app] #10491 < #122 #10490
[mk-app] #10492 and #337 #10491
[mk-app] #10493 => #10488 #10492
[mk-app] #10494 = #10487 #10493
[mk-app] #10495 pattern #10487
[mk-quant] #10496 internal_req__u_tokenizer!text.lemma_step._definition 2 #10495 #10494
[attach-var-names] #10496 (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[attach-meaning] #363 arith (- 1)
[mk-app] #10497 * #363 #122
[inst-discovered] theory-solving 0x0 arith# ; #337
[mk-app] #10497 = #337 #346
[instance] 0x0 #10497
[attach-enode] #10497 0
[end-of-instance]
[mk-app] #10497 <= #10490 #122
[mk-app] #10498 not #10497
[inst-discovered] theory-solving 0x0 arith# ; #10491
[mk-app] #10499 = #10491 #10498
[instance] 0x0 #10499
[attach-enode] #10499 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10499 * #363 #122
[mk-app] #10500 + #10499 #10490
[attach-meaning] #363 arith (- 1)
[mk-app] #10501 * #363 #10490
[mk-app] #10502 + #122 #10501
[mk-app] #10499 >= #10502 #334
[inst-discovered] theory-solving 0x0 arith# ; #10497
[mk-app] #10500 = #10497 #10499
[instance] 0x0 #10500
[attach-enode] #10500 0
[end-of-instance]
[mk-app] #10500 not #10499
[mk-app] #10503 and #346 #10500
[mk-app] #10504 not #10488
[mk-app] #10505 or #10504 #10503
[mk-app] #10506 => #10488 #10503
[inst-discovered] theory-solving 0x0 basic# ; #10506
[mk-app] #10507 = #10506 #10505
[instance] 0x0 #10507
[attach-enode] #10507 0
[end-of-instance]
[mk-app] #10506 = #10487 #10505
[mk-quant] #10507 internal_req__u_tokenizer!text.lemma_step._definition 2 #10495 #10506
[attach-var-names] #10507 (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10497 ens%u_tokenizer!text.lemma_step. #10486 #122
[mk-app] #10498 Add #122 #289
[mk-app] #10508 I #10498
[mk-app] #10509 u_tokenizer!text.bpos.? #10489 #10508
[mk-app] #10510 u_tokenizer!text.bpos.? #10489 #165
[mk-app] #10511 vstd!seq.Seq.index.? #120 #244 #10489 #165
[mk-app] #10512 u_tokenizer!text.clen.? #10511
[mk-app] #10513 Add #10510 #10512
[mk-app] #10514 = #10509 #10513
[mk-app] #10515 = #10497 #10514
[mk-app] #10516 pattern #10497
[mk-quant] #10517 internal_ens__u_tokenizer!text.lemma_step._definition 2 #10516 #10515
[attach-var-names] #10517 (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10518 req%u_tokenizer!text.lemma_ci. #10486 #122
[mk-app] #10519 %%global_location_label%%27
[mk-app] #10520 <= #122 #10490
[mk-app] #10521 and #337 #10520
[mk-app] #10522 => #10519 #10521
[mk-app] #10523 = #10518 #10522
[mk-app] #10524 pattern #10518
[mk-quant] #10525 internal_req__u_tokenizer!text.lemma_ci._definition 2 #10524 #10523
[attach-var-names] #10525 (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[attach-meaning] #363 arith (- 1)
[mk-app] #10526 * #363 #122
[inst-discovered] theory-solving 0x0 arith# ; #337
[mk-app] #10526 = #337 #346
[instance] 0x0 #10526
[attach-enode] #10526 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10526 <= #10502 #334
[inst-discovered] theory-solving 0x0 arith# ; #10520
[mk-app] #10527 = #10520 #10526
[instance] 0x0 #10527
[attach-enode] #10527 0
[end-of-instance]
[mk-app] #10527 and #346 #10526
[mk-app] #10528 not #10519
[mk-app] #10529 or #10528 #10527
[mk-app] #10530 => #10519 #10527
[inst-discovered] theory-solving 0x0 basic# ; #10530
[mk-app] #10531 = #10530 #10529
[instance] 0x0 #10531
[attach-enode] #10531 0
[end-of-instance]
[mk-app] #10530 = #10518 #10529
[mk-quant] #10531 internal_req__u_tokenizer!text.lemma_ci._definition 2 #10524 #10530
[attach-var-names] #10531 (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10532 ens%u_tokenizer!text.lemma_ci. #10486 #122
[mk-app] #10533 I #10510
[mk-app] #10534 u_tokenizer!text.boundary.? #10489 #10533
[mk-app] #10535 u_tokenizer!text.ci.? #10489 #10533
[mk-app] #10536 = #10535 #122
[mk-app] #10537 and #10534 #10536
[mk-app] #10538 = #10532 #10537
[mk-app] #10539 pattern #10532
[mk-quant] #10540 internal_ens__u_tokenizer!text.lemma_ci._definition 2 #10539 #10538
[attach-var-names] #10540 (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[mk-var] #10541 3
[mk-var] #10542 2
[mk-app] #10543 req%u_tokenizer!lst.lemma_range. #10541 #10542 #219 #122
[mk-app] #10544 %%global_location_label%%28
[mk-app] #10545 Poly%vstd!seq.Seq<char.>. #10541
[mk-app] #10546 Poly%u_tokenizer!error.SourceRange. #10542
[mk-app] #10547 %Poly%u_tokenizer!error.SourceRange. #10546
[mk-app] #10548 u_tokenizer!error.SourceRange./SourceRange/start #10547
[mk-app] #10549 I #10548
[mk-app] #10550 u_tokenizer!text.is_at.? #10545 #10549 #769
[mk-app] #10551 => #10544 #10550
[mk-app] #10552 %%global_location_label%%29
[mk-app] #10553 u_tokenizer!error.SourceRange./SourceRange/end #10547
[mk-app] #10554 I #10553
[mk-app] #10555 u_tokenizer!text.is_at.? #10545 #10554 #165
[mk-app] #10556 => #10552 #10555
[mk-app] #10557 %%global_location_label%%30
[mk-app] #10558 u_tokenizer!lst.tokens_span.? #10545 #769 #165
[mk-app] #10559 => #10557 #10558
[mk-app] #10560 and #10551 #10556 #10559
[mk-app] #10561 = #10543 #10560
[mk-app] #10562 pattern #10543
[mk-quant] #10563 internal_req__u_tokenizer!lst.lemma_range._definition 4 #10562 #10561
[attach-var-names] #10563 (|b!| ; |Int|) (|a!| ; |Int|) (|r!| ; |u_tokenizer!error.SourceRange.|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10564 not #10544
[mk-app] #10565 or #10564 #10550
[inst-discovered] theory-solving 0x0 basic# ; #10551
[mk-app] #10566 = #10551 #10565
[instance] 0x0 #10566
[attach-enode] #10566 0
[end-of-instance]
[mk-app] #10566 not #10552
[mk-app] #10567 or #10566 #10555
[inst-discovered] theory-solving 0x0 basic# ; #10556
[mk-app] #10568 = #10556 #10567
[instance] 0x0 #10568
[attach-enode] #10568 0
[end-of-instance]
[mk-app] #10568 not #10557
[mk-app] #10569 or #10568 #10558
[inst-discovered] theory-solving 0x0 basic# ; #10559
[mk-app] #10570 = #10559 #10569
[instance] 0x0 #10570
[attach-enode] #10570 0
[end-of-instance]
[mk-app] #10570 and #10565 #10567 #10569
[mk-app] #10571 = #10543 #10570
[mk-quant] #10572 internal_req__u_tokenizer!lst.lemma_range._definition 4 #10562 #10571
[attach-var-names] #10572 (|b!| ; |Int|) (|a!| ; |Int|) (|r!| ; |u_tokenizer!error.SourceRange.|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10573 ens%u_tokenizer!lst.lemma_range. #10541 #10542 #219 #122
[mk-app] #10574 u_tokenizer!lst.range_fine.? #10545 #10546
[mk-app] #10575 = #10573 #10574
[mk-app] #10576 pattern #10573
[mk-quant] #10577 internal_ens__u_tokenizer!lst.lemma_range._definition 4 #10576 #10575
[attach-var-names] #10577 (|b!| ; |Int|) (|a!| ; |Int|) (|r!| ; |u_tokenizer!error.SourceRange.|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10578 req%u_tokenizer!lex.lemma_scan. #10436 #219 #2101
[mk-app] #10579 %%global_location_label%%31
[mk-app] #10580 <= #219 #10440
[mk-app] #10581 and #630 #10580
[mk-app] #10582 => #10579 #10581
[mk-app] #10583 = #10578 #10582
[mk-app] #10584 pattern #10578
[mk-quant] #10585 internal_req__u_tokenizer!lex.lemma_scan._definition 3 #10584 #10583
[attach-var-names] #10585 (|w!| ; |u_tokenizer!lex.Class.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #630
[mk-app] #10586 = #630 #635
[instance] 0x0 #10586
[attach-enode] #10586 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10586 + #219 #10448
[mk-app] #10587 <= #10586 #334
[inst-discovered] theory-solving 0x0 arith# ; #10580
[mk-app] #10588 = #10580 #10587
[instance] 0x0 #10588
[attach-enode] #10588 0
[end-of-instance]
[mk-app] #10588 and #635 #10587
[mk-app] #10589 not #10579
[mk-app] #10590 or #10589 #10588
[mk-app] #10591 => #10579 #10588
[inst-discovered] theory-solving 0x0 basic# ; #10591
[mk-app] #10592 = #10591 #10590
[instance] 0x0 #10592
[attach-enode] #10592 0
[end-of-instance]
[mk-app] #10591 = #10578 #10590
[mk-quant] #10592 internal_req__u_tokenizer!lex.lemma_scan._definition 3 #10584 #10591
[attach-var-names] #10592 (|w!| ; |u_tokenizer!lex.Class.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10593 ens%u_tokenizer!lex.lemma_scan. #10436 #219 #2101
[mk-app] #10594 u_tokenizer!lex.scan.? #10439 #769 #2102
[mk-app] #10595 <= #219 #10594
[mk-app] #10596 <= #10594 #10440
[mk-app] #10597 and #10595 #10596
[mk-var] #10598 1
[mk-app] #10599 Poly%u_tokenizer!lex.Class. #10598
[mk-app] #10600 u_tokenizer!lex.scan.? #10545 #6863 #10599
[mk-app] #10601 <= #2055 #186
[mk-app] #10602 < #186 #10600
[mk-app] #10603 and #10601 #10602
[mk-app] #10604 vstd!seq.Seq.index.? #120 #244 #10545 #33
[mk-app] #10605 u_tokenizer!lex.within.? #10599 #10604
[mk-app] #10606 => #10603 #10605
[mk-app] #10607 => #185 #10606
[mk-app] #10608 pattern #10604
[mk-quant] #10609 user_u_tokenizer__lex__lemma_scan_0 1 #10608 #10607
[attach-var-names] #10609 (|i$| ; |Poly|)
[mk-app] #10610 < #10594 #10440
[mk-app] #10611 I #10594
[mk-app] #10612 vstd!seq.Seq.index.? #120 #244 #10439 #10611
[mk-app] #10613 u_tokenizer!lex.within.? #2102 #10612
[mk-app] #10614 not #10613
[mk-app] #10615 => #10610 #10614
[mk-app] #10616 and #10597 #10609 #10615
[mk-app] #10617 = #10593 #10616
[mk-app] #10618 pattern #10593
[mk-quant] #10619 internal_ens__u_tokenizer!lex.lemma_scan._definition 3 #10618 #10617
[attach-var-names] #10619 (|w!| ; |u_tokenizer!lex.Class.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[attach-meaning] #363 arith (- 1)
[mk-app] #10620 * #363 #10594
[mk-app] #10621 + #219 #10620
[mk-app] #10622 <= #10621 #334
[inst-discovered] theory-solving 0x0 arith# ; #10595
[mk-app] #10623 = #10595 #10622
[instance] 0x0 #10623
[attach-enode] #10623 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10623 + #10448 #10594
[attach-meaning] #363 arith (- 1)
[mk-app] #10624 + #10440 #10620
[mk-app] #10623 >= #10624 #334
[inst-discovered] theory-solving 0x0 arith# ; #10596
[mk-app] #10625 = #10596 #10623
[instance] 0x0 #10625
[attach-enode] #10625 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10625 * #363 #186
[mk-app] #10626 + #10625 #2055
[attach-meaning] #363 arith (- 1)
[mk-app] #10627 + #186 #2833
[mk-app] #10625 >= #10627 #334
[inst-discovered] theory-solving 0x0 arith# ; #10601
[mk-app] #10626 = #10601 #10625
[instance] 0x0 #10626
[attach-enode] #10626 0
[end-of-instance]
[mk-app] #10626 <= #10600 #186
[mk-app] #10628 not #10626
[inst-discovered] theory-solving 0x0 arith# ; #10602
[mk-app] #10629 = #10602 #10628
[instance] 0x0 #10629
[attach-enode] #10629 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10629 * #363 #186
[mk-app] #10630 + #10629 #10600
[attach-meaning] #363 arith (- 1)
[mk-app] #10631 * #363 #10600
[mk-app] #10632 + #186 #10631
[mk-app] #10629 >= #10632 #334
[inst-discovered] theory-solving 0x0 arith# ; #10626
[mk-app] #10630 = #10626 #10629
[instance] 0x0 #10630
[attach-enode] #10630 0
[end-of-instance]
[mk-app] #10630 not #10629
[mk-app] #10633 and #10625 #10630
[mk-app] #10634 not #10633
[mk-app] #10635 or #10634 #10605
[mk-app] #10636 => #10633 #10605
[inst-discovered] theory-solving 0x0 basic# ; #10636
[mk-app] #10637 = #10636 #10635
[instance] 0x0 #10637
[attach-enode] #10637 0
[end-of-instance]
[mk-app] #10636 or #192 #10634 #10605
[mk-app] #10637 => #185 #10635
[inst-discovered] theory-solving 0x0 basic# ; #10637
[mk-app] #10638 = #10637 #10636
[instance] 0x0 #10638
[attach-enode] #10638 0
[end-of-instance]
[mk-quant] #10635 user_u_tokenizer__lex__lemma_scan_0 1 #10608 #10636
[attach-var-names] #10635 (|i$| ; |Poly|)
[mk-app] #10626 <= #10440 #10594
[mk-app] #10628 not #10626
[inst-discovered] theory-solving 0x0 arith# ; #10610
[mk-app] #10637 = #10610 #10628
[instance] 0x0 #10637
[attach-enode] #10637 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10637 <= #10624 #334
[inst-discovered] theory-solving 0x0 arith# ; #10626
[mk-app] #10638 = #10626 #10637
[instance] 0x0 #10638
[attach-enode] #10638 0
[end-of-instance]
[mk-app] #10638 not #10637
[mk-app] #10639 or #10637 #10614
[mk-app] #10640 => #10638 #10614
[inst-discovered] theory-solving 0x0 basic# ; #10640
[mk-app] #10641 = #10640 #10639
[instance] 0x0 #10641
[attach-enode] #10641 0
[end-of-instance]
[mk-app] #10640 and #10622 #10623 #10635 #10639
[mk-app] #10641 = #10593 #10640
[mk-quant] #10642 internal_ens__u_tokenizer!lex.lemma_scan._definition 3 #10618 #10641
[attach-var-names] #10642 (|w!| ; |u_tokenizer!lex.Class.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10638 req%u_tokenizer!lex.lemma_scan_on. #10541 #2055 #219 #2101
[mk-app] #10626 %%global_location_label%%32
[mk-app] #10628 u_tokenizer!lex.scan.? #10545 #6863 #2102
[mk-app] #10643 <= #334 #2055
[mk-app] #10644 <= #2055 #219
[mk-app] #10645 and #10643 #10644
[mk-app] #10646 <= #219 #10628
[mk-app] #10647 and #10645 #10646
[mk-app] #10648 => #10626 #10647
[mk-app] #10649 %%global_location_label%%33
[mk-app] #10650 vstd!seq.Seq.len.? #120 #244 #10545
[mk-app] #10651 <= #2055 #10650
[mk-app] #10652 => #10649 #10651
[mk-app] #10653 and #10648 #10652
[mk-app] #10654 = #10638 #10653
[mk-app] #10655 pattern #10638
[mk-quant] #10656 internal_req__u_tokenizer!lex.lemma_scan_on._definition 4 #10655 #10654
[attach-var-names] #10656 (|w!| ; |u_tokenizer!lex.Class.|) (|j!| ; |Int|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[attach-meaning] #363 arith (- 1)
[mk-app] #10657 >= #2055 #334
[inst-discovered] theory-solving 0x0 arith# ; #10643
[mk-app] #10658 = #10643 #10657
[instance] 0x0 #10658
[attach-enode] #10658 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10658 + #562 #2055
[attach-meaning] #363 arith (- 1)
[mk-app] #10659 + #219 #2833
[mk-app] #10658 >= #10659 #334
[inst-discovered] theory-solving 0x0 arith# ; #10644
[mk-app] #10660 = #10644 #10658
[instance] 0x0 #10660
[attach-enode] #10660 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10660 * #363 #10628
[mk-app] #10661 + #219 #10660
[mk-app] #10662 <= #10661 #334
[inst-discovered] theory-solving 0x0 arith# ; #10646
[mk-app] #10663 = #10646 #10662
[instance] 0x0 #10663
[attach-enode] #10663 0
[end-of-instance]
[mk-app] #10663 and #10657 #10658 #10662
[mk-app] #10664 not #10626
[mk-app] #10665 or #10664 #10663
[mk-app] #10666 => #10626 #10663
[inst-discovered] theory-solving 0x0 basic# ; #10666
[mk-app] #10667 = #10666 #10665
[instance] 0x0 #10667
[attach-enode] #10667 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10666 * #363 #10650
[mk-app] #10667 + #2055 #10666
[mk-app] #10668 <= #10667 #334
[inst-discovered] theory-solving 0x0 arith# ; #10651
[mk-app] #10669 = #10651 #10668
[instance] 0x0 #10669
[attach-enode] #10669 0
[end-of-instance]
[mk-app] #10669 not #10649
[mk-app] #10670 or #10669 #10668
[mk-app] #10671 => #10649 #10668
[inst-discovered] theory-solving 0x0 basic# ; #10671
[mk-app] #10672 = #10671 #10670
[instance] 0x0 #10672
[attach-enode] #10672 0
[end-of-instance]
[mk-app] #10671 and #10665 #10670
[mk-app] #10672 = #10638 #10671
[mk-quant] #10673 internal_req__u_tokenizer!lex.lemma_scan_on._definition 4 #10655 #10672
[attach-var-names] #10673 (|w!| ; |u_tokenizer!lex.Class.|) (|j!| ; |Int|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10674 ens%u_tokenizer!lex.lemma_scan_on. #10541 #2055 #219 #2101
[mk-app] #10675 u_tokenizer!lex.scan.? #10545 #769 #2102
[mk-app] #10676 = #10675 #10628
[mk-app] #10677 = #10674 #10676
[mk-app] #10678 pattern #10674
[mk-quant] #10679 internal_ens__u_tokenizer!lex.lemma_scan_on._definition 4 #10678 #10677
[attach-var-names] #10679 (|w!| ; |u_tokenizer!lex.Class.|) (|j!| ; |Int|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10680 req%u_tokenizer!lex.lemma_step_next. #10486 #122
[mk-app] #10681 %%global_location_label%%34
[mk-app] #10682 => #10681 #10492
[mk-app] #10683 = #10680 #10682
[mk-app] #10684 pattern #10680
[mk-quant] #10685 internal_req__u_tokenizer!lex.lemma_step_next._definition 2 #10684 #10683
[attach-var-names] #10685 (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[attach-meaning] #363 arith (- 1)
[mk-app] #10686 * #363 #122
[inst-discovered] theory-solving 0x0 arith# ; #337
[mk-app] #10686 = #337 #346
[instance] 0x0 #10686
[attach-enode] #10686 0
[end-of-instance]
[mk-app] #10686 <= #10490 #122
[mk-app] #10687 not #10686
[inst-discovered] theory-solving 0x0 arith# ; #10491
[mk-app] #10688 = #10491 #10687
[instance] 0x0 #10688
[attach-enode] #10688 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10688 * #363 #122
[mk-app] #10689 + #10688 #10490
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10686
[mk-app] #10688 = #10686 #10499
[instance] 0x0 #10688
[attach-enode] #10688 0
[end-of-instance]
[mk-app] #10688 not #10681
[mk-app] #10689 or #10688 #10503
[mk-app] #10690 => #10681 #10503
[inst-discovered] theory-solving 0x0 basic# ; #10690
[mk-app] #10691 = #10690 #10689
[instance] 0x0 #10691
[attach-enode] #10691 0
[end-of-instance]
[mk-app] #10690 = #10680 #10689
[mk-quant] #10691 internal_req__u_tokenizer!lex.lemma_step_next._definition 2 #10684 #10690
[attach-var-names] #10691 (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10686 ens%u_tokenizer!lex.lemma_step_next. #10486 #122
[mk-app] #10687 u_tokenizer!lex.step.? #10489 #165
[mk-app] #10692 Poly%u_tokenizer!lex.Step. #10687
[mk-app] #10693 %Poly%u_tokenizer!lex.Step. #10692
[mk-app] #10694 u_tokenizer!lex.Step./Step/next #10693
[mk-app] #10695 < #122 #10694
[mk-app] #10696 <= #10694 #10490
[mk-app] #10697 and #10695 #10696
[mk-app] #10698 u_tokenizer!lex.Step./Step/tok #10693
[mk-app] #10699 is-core!option.Option./Some #10698
[mk-app] #10700 Poly%core!option.Option. #10698
[mk-app] #10701 %Poly%core!option.Option. #10700
[mk-app] #10702 core!option.Option./Some/0 #120 #1543 #10701
[mk-app] #10703 %Poly%u_tokenizer!lex.Tok. #10702
[mk-app] #10704 Poly%u_tokenizer!lex.Tok. #10703
[mk-app] #10705 %Poly%u_tokenizer!lex.Tok. #10704
[mk-app] #10706 u_tokenizer!lex.Tok./Tok/s #10705
[mk-app] #10707 = #10706 #122
[mk-app] #10708 u_tokenizer!lex.Tok./Tok/e #10705
[mk-app] #10709 > #10708 #122
[mk-app] #10710 and #10707 #10709
[mk-app] #10711 <= #10708 #10694
[mk-app] #10712 and #10710 #10711
[mk-app] #10713 u_tokenizer!lex.Step./Step/ok #10693
[mk-app] #10714 I #10708
[mk-app] #10715 I #10694
[mk-app] #10716 u_tokenizer!lex.blank_between.? #10489 #10714 #10715
[mk-app] #10717 => #10713 #10716
[mk-app] #10718 and #10712 #10717
[mk-app] #10719 => #10699 #10718
[mk-app] #10720 and #10697 #10719
[mk-app] #10721 is-core!option.Option./None #10698
[mk-app] #10722 and #10721 #10713
[mk-app] #10723 u_tokenizer!text.is_blank.? #10511
[mk-app] #10724 = #10694 #10498
[mk-app] #10725 and #10723 #10724
[mk-app] #10726 => #10722 #10725
[mk-app] #10727 and #10720 #10726
[mk-app] #10728 = #10686 #10727
[mk-app] #10729 pattern #10686
[mk-quant] #10730 internal_ens__u_tokenizer!lex.lemma_step_next._definition 2 #10729 #10728
[attach-var-names] #10730 (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10731 <= #10694 #122
[mk-app] #10732 not #10731
[inst-discovered] theory-solving 0x0 arith# ; #10695
[mk-app] #10733 = #10695 #10732
[instance] 0x0 #10733
[attach-enode] #10733 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10733 * #363 #122
[mk-app] #10734 + #10733 #10694
[attach-meaning] #363 arith (- 1)
[mk-app] #10735 * #363 #10694
[mk-app] #10736 + #122 #10735
[mk-app] #10733 >= #10736 #334
[inst-discovered] theory-solving 0x0 arith# ; #10731
[mk-app] #10734 = #10731 #10733
[instance] 0x0 #10734
[attach-enode] #10734 0
[end-of-instance]
[mk-app] #10734 not #10733
[attach-meaning] #363 arith (- 1)
[mk-app] #10737 + #10501 #10694
[attach-meaning] #363 arith (- 1)
[mk-app] #10738 + #10490 #10735
[mk-app] #10737 >= #10738 #334
[inst-discovered] theory-solving 0x0 arith# ; #10696
[mk-app] #10739 = #10696 #10737
[instance] 0x0 #10739
[attach-enode] #10739 0
[end-of-instance]
[mk-app] #10739 is #10698
[inst-discovered] theory-solving 0x0 datatype# ; #10699
[mk-app] #10740 = #10699 #10739
[instance] 0x0 #10740
[attach-enode] #10740 0
[end-of-instance]
[mk-app] #10740 <= #10708 #122
[mk-app] #10741 not #10740
[inst-discovered] theory-solving 0x0 arith# ; #10709
[mk-app] #10742 = #10709 #10741
[instance] 0x0 #10742
[attach-enode] #10742 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10742 * #363 #122
[mk-app] #10743 + #10742 #10708
[attach-meaning] #363 arith (- 1)
[mk-app] #10744 * #363 #10708
[mk-app] #10745 + #122 #10744
[mk-app] #10742 >= #10745 #334
[inst-discovered] theory-solving 0x0 arith# ; #10740
[mk-app] #10743 = #10740 #10742
[instance] 0x0 #10743
[attach-enode] #10743 0
[end-of-instance]
[mk-app] #10743 not #10742
[attach-meaning] #363 arith (- 1)
[mk-app] #10746 + #10735 #10708
[attach-meaning] #363 arith (- 1)
[mk-app] #10747 + #10694 #10744
[mk-app] #10746 >= #10747 #334
[inst-discovered] theory-solving 0x0 arith# ; #10711
[mk-app] #10748 = #10711 #10746
[instance] 0x0 #10748
[attach-enode] #10748 0
[end-of-instance]
[mk-app] #10748 not #10713
[mk-app] #10749 or #10748 #10716
[inst-discovered] theory-solving 0x0 basic# ; #10717
[mk-app] #10750 = #10717 #10749
[instance] 0x0 #10750
[attach-enode] #10750 0
[end-of-instance]
[mk-app] #10750 and #10707 #10743 #10746 #10749
[mk-app] #10751 not #10739
[mk-app] #10752 or #10751 #10750
[mk-app] #10753 => #10739 #10750
[inst-discovered] theory-solving 0x0 basic# ; #10753
[mk-app] #10754 = #10753 #10752
[instance] 0x0 #10754
[attach-enode] #10754 0
[end-of-instance]
[mk-app] #10753 is #10698
[inst-discovered] theory-solving 0x0 datatype# ; #10721
[mk-app] #10754 = #10721 #10753
[instance] 0x0 #10754
[attach-enode] #10754 0
[end-of-instance]
[mk-app] #10754 and #10753 #10713
[mk-app] #10755 not #10754
[mk-app] #10756 or #10755 #10725
[mk-app] #10757 => #10754 #10725
[inst-discovered] theory-solving 0x0 basic# ; #10757
[mk-app] #10758 = #10757 #10756
[instance] 0x0 #10758
[attach-enode] #10758 0
[end-of-instance]
[mk-app] #10757 and #10734 #10737 #10752 #10756
[mk-app] #10758 = #10686 #10757
[mk-quant] #10759 internal_ens__u_tokenizer!lex.lemma_step_next._definition 2 #10729 #10758
[attach-var-names] #10759 (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10731 req%u_tokenizer!lex.lemma_lexed. #10436 #219 #1537
[mk-app] #10732 %%global_location_label%%35
[mk-app] #10740 < #219 #10440
[mk-app] #10741 and #630 #10740
[mk-app] #10760 => #10732 #10741
[mk-app] #10761 = #10731 #10760
[mk-app] #10762 pattern #10731
[mk-quant] #10763 internal_req__u_tokenizer!lex.lemma_lexed._definition 3 #10762 #10761
[attach-var-names] #10763 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #630
[mk-app] #10764 = #630 #635
[instance] 0x0 #10764
[attach-enode] #10764 0
[end-of-instance]
[mk-app] #10764 <= #10440 #219
[mk-app] #10765 not #10764
[inst-discovered] theory-solving 0x0 arith# ; #10740
[mk-app] #10766 = #10740 #10765
[instance] 0x0 #10766
[attach-enode] #10766 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10766 + #562 #10440
[attach-meaning] #363 arith (- 1)
[mk-app] #10766 >= #10586 #334
[inst-discovered] theory-solving 0x0 arith# ; #10764
[mk-app] #10767 = #10764 #10766
[instance] 0x0 #10767
[attach-enode] #10767 0
[end-of-instance]
[mk-app] #10767 not #10766
[mk-app] #10768 and #635 #10767
[mk-app] #10769 not #10732
[mk-app] #10770 or #10769 #10768
[mk-app] #10771 => #10732 #10768
[inst-discovered] theory-solving 0x0 basic# ; #10771
[mk-app] #10772 = #10771 #10770
[instance] 0x0 #10772
[attach-enode] #10772 0
[end-of-instance]
[mk-app] #10771 = #10731 #10770
[mk-quant] #10772 internal_req__u_tokenizer!lex.lemma_lexed._definition 3 #10762 #10771
[attach-var-names] #10772 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10764 ens%u_tokenizer!lex.lemma_lexed. #10436 #219 #1537
[mk-app] #10765 u_tokenizer!lex.lexed.? #10439 #769
[mk-app] #10773 Poly%u_tokenizer!lex.Lexed. #10765
[mk-app] #10774 %Poly%u_tokenizer!lex.Lexed. #10773
[mk-app] #10775 u_tokenizer!lex.Lexed./Lexed/ok #10774
[mk-app] #10776 u_tokenizer!lex.step.? #10439 #769
[mk-app] #10777 Poly%u_tokenizer!lex.Step. #10776
[mk-app] #10778 %Poly%u_tokenizer!lex.Step. #10777
[mk-app] #10779 u_tokenizer!lex.Step./Step/ok #10778
[mk-app] #10780 u_tokenizer!lex.Step./Step/next #10778
[mk-app] #10781 I #10780
[mk-app] #10782 u_tokenizer!lex.lexed.? #10439 #10781
[mk-app] #10783 Poly%u_tokenizer!lex.Lexed. #10782
[mk-app] #10784 %Poly%u_tokenizer!lex.Lexed. #10783
[mk-app] #10785 u_tokenizer!lex.Lexed./Lexed/ok #10784
[mk-app] #10786 and #10779 #10785
[mk-app] #10787 = #10775 #10786
[mk-app] #10788 u_tokenizer!lex.Lexed./Lexed/toks #10774
[mk-app] #10789 Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #10788
[mk-app] #10790 vstd!seq.Seq.add.? #120 #1543 #1538 #10789
[mk-app] #10791 u_tokenizer!lex.Step./Step/tok #10778
[mk-app] #10792 Poly%core!option.Option. #10791
[mk-app] #10793 u_tokenizer!lex.with.? #1538 #10792
[mk-app] #10794 Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #10793
[mk-app] #10795 u_tokenizer!lex.Lexed./Lexed/toks #10784
[mk-app] #10796 Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #10795
[mk-app] #10797 vstd!seq.Seq.add.? #120 #1543 #10794 #10796
[mk-app] #10798 = #10790 #10797
[mk-app] #10799 and #10787 #10798
[mk-app] #10800 = #10764 #10799
[mk-app] #10801 pattern #10764
[mk-quant] #10802 internal_ens__u_tokenizer!lex.lemma_lexed._definition 3 #10801 #10800
[attach-var-names] #10802 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10803 req%u_tokenizer!lex.lemma_exact. #10486 #122
[mk-app] #10804 %%global_location_label%%36
[mk-app] #10805 => #10804 #10521
[mk-app] #10806 %%global_location_label%%37
[mk-app] #10807 u_tokenizer!lex.lexed.? #10489 #165
[mk-app] #10808 Poly%u_tokenizer!lex.Lexed. #10807
[mk-app] #10809 %Poly%u_tokenizer!lex.Lexed. #10808
[mk-app] #10810 u_tokenizer!lex.Lexed./Lexed/ok #10809
[mk-app] #10811 => #10806 #10810
[mk-app] #10812 and #10805 #10811
[mk-app] #10813 = #10803 #10812
[mk-app] #10814 pattern #10803
[mk-quant] #10815 internal_req__u_tokenizer!lex.lemma_exact._definition 2 #10814 #10813
[attach-var-names] #10815 (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[attach-meaning] #363 arith (- 1)
[mk-app] #10816 * #363 #122
[inst-discovered] theory-solving 0x0 arith# ; #337
[mk-app] #10816 = #337 #346
[instance] 0x0 #10816
[attach-enode] #10816 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[inst-discovered] theory-solving 0x0 arith# ; #10520
[mk-app] #10816 = #10520 #10526
[instance] 0x0 #10816
[attach-enode] #10816 0
[end-of-instance]
[mk-app] #10816 not #10804
[mk-app] #10817 or #10816 #10527
[mk-app] #10818 => #10804 #10527
[inst-discovered] theory-solving 0x0 basic# ; #10818
[mk-app] #10819 = #10818 #10817
[instance] 0x0 #10819
[attach-enode] #10819 0
[end-of-instance]
[mk-app] #10818 not #10806
[mk-app] #10819 or #10818 #10810
[inst-discovered] theory-solving 0x0 basic# ; #10811
[mk-app] #10820 = #10811 #10819
[instance] 0x0 #10820
[attach-enode] #10820 0
[end-of-instance]
[mk-app] #10820 and #10817 #10819
[mk-app] #10821 = #10803 #10820
[mk-quant] #10822 internal_req__u_tokenizer!lex.lemma_exact._definition 2 #10814 #10821
[attach-var-names] #10822 (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10823 ens%u_tokenizer!lex.lemma_exact. #10486 #122
[mk-app] #10824 u_tokenizer!lex.Lexed./Lexed/toks #10809
[mk-app] #10825 Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #10824
[mk-app] #10826 u_tokenizer!lex.covers.? #10489 #165 #10825
[mk-app] #10827 = #10823 #10826
[mk-app] #10828 pattern #10823
[mk-quant] #10829 internal_ens__u_tokenizer!lex.lemma_exact._definition 2 #10828 #10827
[attach-var-names] #10829 (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-var] #10830 6
[mk-var] #10831 5
[mk-var] #10832 4
[mk-var] #10833 3
[mk-app] #10834 req%u_tokenizer!tokenizer.lemma_progress. #10830 #10831 #10832 #10833 #1273 #2310 #1537
[mk-app] #10835 %%global_location_label%%38
[mk-app] #10836 Poly%vstd!seq.Seq<char.>. #10830
[mk-app] #10837 vstd!seq.Seq.len.? #120 #244 #10836
[mk-app] #10838 <= #334 #10831
[mk-app] #10839 < #10831 #10837
[mk-app] #10840 and #10838 #10839
[mk-app] #10841 => #10835 #10840
[mk-app] #10842 %%global_location_label%%39
[mk-app] #10843 I #10831
[mk-app] #10844 Poly%vstd!seq.Seq<u_tokenizer!token.Token.>. #10832
[mk-app] #10845 B #1273
[mk-app] #10846 u_tokenizer!tokenizer.progress.? #10836 #10843 #10844 #10845 #1538
[mk-app] #10847 => #10842 #10846
[mk-app] #10848 %%global_location_label%%40
[mk-app] #10849 u_tokenizer!lex.step.? #10836 #10843
[mk-app] #10850 Poly%u_tokenizer!lex.Step. #10849
[mk-app] #10851 %Poly%u_tokenizer!lex.Step. #10850
[mk-app] #10852 u_tokenizer!lex.Step./Step/ok #10851
[mk-app] #10853 not #10852
[mk-app] #10854 or #1273 #10853
[mk-app] #10855 => #2310 #10854
[mk-app] #10856 => #10848 #10855
[mk-app] #10857 %%global_location_label%%41
[mk-app] #10858 not #2310
[mk-app] #10859 not #1273
[mk-app] #10860 and #10859 #10852
[mk-app] #10861 u_tokenizer!lex.Step./Step/tok #10851
[mk-app] #10862 is-core!option.Option./Some #10861
[mk-app] #10863 Poly%core!option.Option. #10861
[mk-app] #10864 %Poly%core!option.Option. #10863
[mk-app] #10865 core!option.Option./Some/0 #120 #1543 #10864
[mk-app] #10866 %Poly%u_tokenizer!lex.Tok. #10865
[mk-app] #10867 Poly%vstd!seq.Seq<u_tokenizer!token.Token.>. #10833
[mk-app] #10868 vstd!seq.Seq.len.? #120 #1402 #10867
[mk-app] #10869 vstd!seq.Seq.len.? #120 #1402 #10844
[mk-app] #10870 Add #10869 #289
[mk-app] #10871 nClip #10870
[mk-app] #10872 = #10868 #10871
[mk-app] #10873 vstd!seq_lib.impl&%0.drop_last.? #120 #1402 #10867
[mk-app] #10874 %Poly%vstd!seq.Seq<u_tokenizer!token.Token.>. #10873
[mk-app] #10875 = #10874 #10832
[mk-app] #10876 and #10872 #10875
[mk-app] #10877 vstd!seq.Seq.last.? #120 #1402 #10867
[mk-app] #10878 Poly%u_tokenizer!lex.Tok. #10866
[mk-app] #10879 u_tokenizer!tokenizer.is_tok.? #10836 #10877 #10878
[mk-app] #10880 and #10876 #10879
[mk-app] #10881 = #10833 #10832
[mk-app] #10882 if #10862 #10880 #10881
[mk-app] #10883 and #10860 #10882
[mk-app] #10884 => #10858 #10883
[mk-app] #10885 => #10857 #10884
[mk-app] #10886 and #10841 #10847 #10856 #10885
[mk-app] #10887 = #10834 #10886
[mk-app] #10888 pattern #10834
[mk-quant] #10889 internal_req__u_tokenizer!tokenizer.lemma_progress._definition 7 #10888 #10887
[attach-var-names] #10889 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|wrong!| ; |Bool|) (|was!| ; |Bool|) (|xs!| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|) (|had!| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[attach-meaning] #363 arith (- 1)
[mk-app] #10890 * #363 #10831
[mk-app] #10891 >= #10831 #334
[inst-discovered] theory-solving 0x0 arith# ; #10838
[mk-app] #10890 = #10838 #10891
[instance] 0x0 #10890
[attach-enode] #10890 0
[end-of-instance]
[mk-app] #10890 <= #10837 #10831
[mk-app] #10892 not #10890
[inst-discovered] theory-solving 0x0 arith# ; #10839
[mk-app] #10893 = #10839 #10892
[instance] 0x0 #10893
[attach-enode] #10893 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #10893 * #363 #10831
[mk-app] #10894 + #10893 #10837
[attach-meaning] #363 arith (- 1)
[mk-app] #10895 * #363 #10837
[mk-app] #10896 + #10831 #10895
[mk-app] #10893 >= #10896 #334
[inst-discovered] theory-solving 0x0 arith# ; #10890
[mk-app] #10894 = #10890 #10893
[instance] 0x0 #10894
[attach-enode] #10894 0
[end-of-instance]
[mk-app] #10894 not #10893
[mk-app] #10897 and #10891 #10894
[mk-app] #10898 not #10835
[mk-app] #10899 or #10898 #10897
[mk-app] #10900 => #10835 #10897
[inst-discovered] theory-solving 0x0 basic# ; #10900
[mk-app] #10901 = #10900 #10899
[instance] 0x0 #10901
[attach-enode] #10901 0
[end-of-instance]
[mk-app] #10900 not #10842
[mk-app] #10901 or #10900 #10846
[inst-discovered] theory-solving 0x0 basic# ; #10847
[mk-app] #10902 = #10847 #10901
[instance] 0x0 #10902
[attach-enode] #10902 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10854
[mk-app] #10902 = #10854 #10854
[instance] 0x0 #10902
[attach-enode] #10902 0
[end-of-instance]
[mk-app] #10902 or #10858 #1273 #10853
[inst-discovered] theory-solving 0x0 basic# ; #10855
[mk-app] #10903 = #10855 #10902
[instance] 0x0 #10903
[attach-enode] #10903 0
[end-of-instance]
[mk-app] #10903 not #10848
[mk-app] #10904 or #10903 #10858 #1273 #10853
[mk-app] #10905 => #10848 #10902
[inst-discovered] theory-solving 0x0 basic# ; #10905
[mk-app] #10906 = #10905 #10904
[instance] 0x0 #10906
[attach-enode] #10906 0
[end-of-instance]
[mk-app] #10902 is #10861
[inst-discovered] theory-solving 0x0 datatype# ; #10862
[mk-app] #10905 = #10862 #10902
[instance] 0x0 #10905
[attach-enode] #10905 0
[end-of-instance]
[mk-app] #10905 and #10872 #10875 #10879
[mk-app] #10906 if #10902 #10905 #10881
[mk-app] #10907 and #10859 #10852 #10906
[mk-app] #10908 or #2310 #10907
[mk-app] #10909 => #10858 #10907
[inst-discovered] theory-solving 0x0 basic# ; #10909
[mk-app] #10910 = #10909 #10908
[instance] 0x0 #10910
[attach-enode] #10910 0
[end-of-instance]
[mk-app] #10909 not #10857
[mk-app] #10910 or #10909 #2310 #10907
[mk-app] #10911 => #10857 #10908
[inst-discovered] theory-solving 0x0 basic# ; #10911
[mk-app] #10912 = #10911 #10910
[instance] 0x0 #10912
[attach-enode] #10912 0
[end-of-instance]
[mk-app] #10908 and #10899 #10901 #10904 #10910
[mk-app] #10911 = #10834 #10908
[mk-quant] #10912 internal_req__u_tokenizer!tokenizer.lemma_progress._definition 7 #10888 #10911
[attach-var-names] #10912 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|wrong!| ; |Bool|) (|was!| ; |Bool|) (|xs!| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|) (|had!| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10890 ens%u_tokenizer!tokenizer.lemma_progress. #10830 #10831 #10832 #10833 #1273 #2310 #1537
[mk-app] #10892 u_tokenizer!lex.Step./Step/next #10851
[mk-app] #10913 I #10892
[mk-app] #10914 B #2310
[mk-app] #10915 u_tokenizer!lex.with.? #1538 #10863
[mk-app] #10916 Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #10915
[mk-app] #10917 u_tokenizer!tokenizer.progress.? #10836 #10913 #10867 #10914 #10916
[mk-app] #10918 = #10890 #10917
[mk-app] #10919 pattern #10890
[mk-quant] #10920 internal_ens__u_tokenizer!tokenizer.lemma_progress._definition 7 #10919 #10918
[attach-var-names] #10920 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|wrong!| ; |Bool|) (|was!| ; |Bool|) (|xs!| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|) (|had!| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10921 ens%u_tokenizer!tokenizer.lemma_start. #1457
[mk-app] #10922 vstd!seq.Seq.empty.? #120 #1402
[mk-app] #10923 u_tokenizer!tokenizer.progress.? #1458 #5644 #10922 #8786 #8882
[mk-app] #10924 = #10921 #10923
[mk-app] #10925 pattern #10921
[mk-quant] #10926 internal_ens__u_tokenizer!tokenizer.lemma_start._definition 1 #10925 #10924
[attach-var-names] #10926 (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-var] #10927 2
[mk-app] #10928 req%u_tokenizer!tokenizer.lemma_finish. #10541 #10927 #2310 #1537
[mk-app] #10929 %%global_location_label%%42
[mk-app] #10930 I #10650
[mk-app] #10931 Poly%vstd!seq.Seq<u_tokenizer!token.Token.>. #10927
[mk-app] #10932 u_tokenizer!tokenizer.progress.? #10545 #10930 #10931 #10914 #1538
[mk-app] #10933 => #10929 #10932
[mk-app] #10934 = #10928 #10933
[mk-app] #10935 pattern #10928
[mk-quant] #10936 internal_req__u_tokenizer!tokenizer.lemma_finish._definition 4 #10935 #10934
[attach-var-names] #10936 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|wrong!| ; |Bool|) (|xs!| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10937 not #10929
[mk-app] #10938 or #10937 #10932
[inst-discovered] theory-solving 0x0 basic# ; #10933
[mk-app] #10939 = #10933 #10938
[instance] 0x0 #10939
[attach-enode] #10939 0
[end-of-instance]
[mk-app] #10939 = #10928 #10938
[mk-quant] #10940 internal_req__u_tokenizer!tokenizer.lemma_finish._definition 4 #10935 #10939
[attach-var-names] #10940 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|wrong!| ; |Bool|) (|xs!| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10941 ens%u_tokenizer!tokenizer.lemma_finish. #10541 #10927 #2310 #1537
[mk-app] #10942 u_tokenizer!lex.lexed.? #10545 #5644
[mk-app] #10943 Poly%u_tokenizer!lex.Lexed. #10942
[mk-app] #10944 %Poly%u_tokenizer!lex.Lexed. #10943
[mk-app] #10945 u_tokenizer!lex.Lexed./Lexed/ok #10944
[mk-app] #10946 = #10945 #10858
[mk-app] #10947 u_tokenizer!lex.Lexed./Lexed/toks #10944
[mk-app] #10948 Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #10947
[mk-app] #10949 u_tokenizer!tokenizer.are_toks.? #10545 #10931 #10948
[mk-app] #10950 u_tokenizer!lex.covers.? #10545 #5644 #10948
[mk-app] #10951 and #10949 #10950
[mk-app] #10952 => #10858 #10951
[mk-app] #10953 and #10946 #10952
[mk-app] #10954 = #10941 #10953
[mk-app] #10955 pattern #10941
[mk-quant] #10956 internal_ens__u_tokenizer!tokenizer.lemma_finish._definition 4 #10955 #10954
[attach-var-names] #10956 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|wrong!| ; |Bool|) (|xs!| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #10957 = #2310 #10945
[mk-app] #10958 not #10957
[inst-discovered] theory-solving 0x0 basic# ; #10946
[mk-app] #10959 = #10946 #10958
[instance] 0x0 #10959
[attach-enode] #10959 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10958
[mk-app] #10959 = #10958 #10958
[instance] 0x0 #10959
[attach-enode] #10959 0
[end-of-instance]
[mk-app] #10959 or #2310 #10951
[inst-discovered] theory-solving 0x0 basic# ; #10952
[mk-app] #10960 = #10952 #10959
[instance] 0x0 #10960
[attach-enode] #10960 0
[end-of-instance]
[mk-app] #10960 and #10958 #10959
[mk-app] #10961 = #10941 #10960
[mk-quant] #10962 internal_ens__u_tokenizer!tokenizer.lemma_finish._definition 4 #10955 #10961
[attach-var-names] #10962 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|wrong!| ; |Bool|) (|xs!| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-var] #10963 2
[mk-app] #10964 ens%u_tokenizer!tokenizer.tokenize. #10963 #6873 #1786
[mk-app] #10965 TYPE%core!result.Result. #120 #1403 #120 #1382
[mk-app] #10966 has_type #1787 #10965
[mk-app] #10967 core!result.Result./Ok/0 #120 #1403 #120 #1382 #1788
[mk-app] #10968 %Poly%alloc!vec.Vec<u_tokenizer!token.Token./alloc!alloc.Global.>. #10967
[mk-app] #10969 u_tokenizer!lex.lexed.? #6876 #5644
[mk-app] #10970 Poly%u_tokenizer!lex.Lexed. #10969
[mk-app] #10971 %Poly%u_tokenizer!lex.Lexed. #10970
[mk-app] #10972 u_tokenizer!lex.Lexed./Lexed/ok #10971
[mk-app] #10973 Poly%alloc!vec.Vec<u_tokenizer!token.Token./alloc!alloc.Global.>. #10968
[mk-app] #10974 vstd!view.View.view.? #120 #1403 #10973
[mk-app] #10975 u_tokenizer!lex.Lexed./Lexed/toks #10971
[mk-app] #10976 Poly%vstd!seq.Seq<u_tokenizer!lex.Tok.>. #10975
[mk-app] #10977 u_tokenizer!tokenizer.are_toks.? #6876 #10974 #10976
[mk-app] #10978 and #10972 #10977
[mk-app] #10979 u_tokenizer!lex.covers.? #6876 #5644 #10976
[mk-app] #10980 and #10978 #10979
[mk-app] #10981 not #10972
[mk-app] #10982 if #1813 #10980 #10981
[mk-app] #10983 and #10966 #10982
[mk-app] #10984 = #10964 #10983
[mk-app] #10985 pattern #10964
[mk-quant] #10986 internal_ens__u_tokenizer!tokenizer.tokenize._definition 3 #10985 #10984
[attach-var-names] #10986 (|r!| ; |core!result.Result.|) (|schema_contents!| ; |strslice%.|) (|schema_path!| ; |u_tokenizer!shim.PathBuf.|)
[inst-discovered] theory-solving 0x0 datatype# ; #1813
[mk-app] #10987 = #1813 #1820
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 and #10972 #10977 #10979
[mk-app] #10988 if #1820 #10987 #10981
[mk-app] #10989 and #10966 #10988
[mk-app] #10990 = #10964 #10989
[mk-quant] #10991 internal_ens__u_tokenizer!tokenizer.tokenize._definition 3 #10985 #10990
[attach-var-names] #10991 (|r!| ; |core!result.Result.|) (|schema_contents!| ; |strslice%.|) (|schema_path!| ; |u_tokenizer!shim.PathBuf.|)
[mk-app] #10992 uInv #270 #122
[mk-app] #10993 not #10992
[mk-app] #10994 or #10993 #468
[mk-quant] #10995 prelude_has_type_usize 1 #470 #10994
[attach-var-names] #10995 (|x| ; |Int|)
[mk-app] #473 iInv #270 #122
[mk-app] #474 not #473
[mk-app] #10996 or #474 #476
[mk-quant] #10997 prelude_has_type_isize 1 #478 #10996
[attach-var-names] #10997 (|x| ; |Int|)
[mk-app] #480 uInv #270 #186
[mk-app] #481 or #208 #480
[mk-quant] #482 prelude_unbox_usize 1 #206 #481
[attach-var-names] #482 (|x| ; |Poly|)
[inst-discovered] theory-solving 0x0 basic# ; #524
[mk-app] #519 = #524 #524
[instance] 0x0 #519
[attach-enode] #519 0
[end-of-instance]
[mk-app] #519 iInv #270 #186
[mk-app] #520 or #216 #519
[mk-quant] #10998 prelude_unbox_isize 1 #214 #520
[attach-var-names] #10998 (|x| ; |Poly|)
[inst-discovered] theory-solving 0x0 basic# ; #1089
[mk-app] #529 = #1089 #1089
[instance] 0x0 #529
[attach-enode] #529 0
[end-of-instance]
[mk-app] #529 not #1
[inst-discovered] theory-solving 0x0 basic# ; #529
[mk-app] #530 = #529 #2
[instance] 0x0 #530
[attach-enode] #530 0
[end-of-instance]
[mk-app] #529 or #2 #1179
[inst-discovered] theory-solving 0x0 basic# ; #529
[mk-app] #530 = #529 #1179
[instance] 0x0 #530
[attach-enode] #530 0
[end-of-instance]
[mk-app] #1181 uInv #270 #2055
[mk-app] #1182 and #1181 #2059
[mk-app] #529 not #1182
[mk-app] #530 or #529 #2064
[mk-quant] #10999 internal_vstd!raw_ptr.PtrData./PtrData_constructor_definition 5 #2066 #530
[attach-var-names] #10999 (|_metadata!| ; |Poly|) (|_provenance!| ; |vstd!raw_ptr.Provenance.|) (|_addr!| ; |Int|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2068 uInv #270 #2076
[mk-app] #2069 or #2052 #2068
[mk-quant] #2070 internal_vstd!raw_ptr.PtrData./PtrData/addr_invariant_definition 3 #2079 #2069
[attach-var-names] #2070 (|x| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #2081 uInv #270 #219
[mk-app] #2082 and #2081 #10992
[mk-app] #11000 not #2082
[mk-app] #11001 or #11000 #2436
[mk-quant] #11002 internal_u_tokenizer!error.SourceRange./SourceRange_constructor_definition 2 #2438 #11001
[attach-var-names] #11002 (|_end!| ; |Int|) (|_start!| ; |Int|)
[mk-app] #2440 uInv #270 #2448
[mk-app] #2441 or #2429 #2440
[mk-quant] #2442 internal_u_tokenizer!error.SourceRange./SourceRange/start_invariant_definition 1 #2451 #2441
[attach-var-names] #2442 (|x| ; |Poly|)
[mk-app] #2453 uInv #270 #2460
[mk-app] #2454 or #2429 #2453
[mk-quant] #11003 internal_u_tokenizer!error.SourceRange./SourceRange/end_invariant_definition 1 #2463 #2454
[attach-var-names] #11003 (|x| ; |Poly|)
[mk-app] #2465 or #10993 #2595
[mk-quant] #2466 internal_u_tokenizer!token.Variant./Integer_constructor_definition 1 #2597 #2465
[attach-var-names] #2466 (|_0!| ; |Int|)
[mk-app] #472 uInv #270 #2606
[mk-app] #2599 or #2537 #472
[mk-quant] #2600 internal_u_tokenizer!token.Variant./Integer/0_invariant_definition 1 #2609 #2599
[attach-var-names] #2600 (|x| ; |Poly|)
[inst-discovered] theory-solving 0x0 basic# ; #2997
[mk-app] #2611 = #2997 #2997
[instance] 0x0 #2611
[attach-enode] #2611 0
[end-of-instance]
[mk-app] #2611 uInv #270 #3143
[mk-app] #2612 and #3106 #2611
[mk-app] #11004 not #2612
[mk-app] #11005 or #11004 #3148
[mk-quant] #11006 internal_proj____vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_true_definition 4 #3150 #11005
[attach-var-names] #11006 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3153 or #11004 #3157
[mk-quant] #3154 internal_proj__vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_false_definition 4 #3159 #3153
[attach-var-names] #3154 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3161 = #3204 #3200
[mk-app] #3162 or #11004 #3455
[mk-quant] #11007 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_true_definition 4 #3457 #3162
[attach-var-names] #11007 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3459 or #11004 #3462
[mk-quant] #3460 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_false_definition 4 #3464 #3459
[attach-var-names] #3460 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3466 or #11004 #3469
[mk-quant] #3467 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_true_definition 4 #3471 #3466
[attach-var-names] #3467 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3473 or #11004 #3477
[mk-quant] #3474 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_false_definition 4 #3479 #3473
[attach-var-names] #3474 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3481 or #11004 #3574
[mk-quant] #3482 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_true_definition 4 #3576 #3481
[attach-var-names] #3482 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3578 or #11004 #3582
[mk-quant] #3579 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_false_definition 4 #3584 #3578
[attach-var-names] #3579 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3586 or #11004 #3589
[mk-quant] #3587 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_true_definition 4 #3591 #3586
[attach-var-names] #3587 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3593 or #11004 #3597
[mk-quant] #3594 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_false_definition 4 #3599 #3593
[attach-var-names] #3594 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #4046
[mk-app] #3601 = #4046 #4046
[instance] 0x0 #3601
[attach-enode] #3601 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4096
[mk-app] #3601 = #4096 #4096
[instance] 0x0 #3601
[attach-enode] #3601 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4115
[mk-app] #3601 = #4115 #4115
[instance] 0x0 #3601
[attach-enode] #3601 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4164
[mk-app] #3601 = #4164 #4164
[instance] 0x0 #3601
[attach-enode] #3601 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4185
[mk-app] #3601 = #4185 #4185
[instance] 0x0 #3601
[attach-enode] #3601 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4328
[mk-app] #3601 = #4328 #4328
[instance] 0x0 #3601
[attach-enode] #3601 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4397
[mk-app] #3601 = #4397 #4397
[instance] 0x0 #3601
[attach-enode] #3601 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4410
[mk-app] #3601 = #4410 #4410
[instance] 0x0 #3601
[attach-enode] #3601 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4427
[mk-app] #3601 = #4427 #4427
[instance] 0x0 #3601
[attach-enode] #3601 0
[end-of-instance]
[mk-app] #3601 uInv #270 #4490
[mk-app] #3602 or #4495 #3601
[mk-quant] #11008 internal_vstd!slice.spec_slice_len.?_pre_post_definition 3 #4493 #3602
[attach-var-names] #11008 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #4523
[mk-app] #4496 = #4523 #4523
[instance] 0x0 #4496
[attach-enode] #4496 0
[end-of-instance]
[mk-app] #4496 uInv #270 #4528
[mk-app] #4497 or #4495 #4496
[mk-quant] #11009 internal_vstd!slice.len__returns_clause_autospec.?_pre_post_definition 3 #4530 #4497
[attach-var-names] #11009 (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #4629
[mk-app] #4538 = #4629 #4629
[instance] 0x0 #4538
[attach-enode] #4538 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4657
[mk-app] #4538 = #4657 #4657
[instance] 0x0 #4538
[attach-enode] #4538 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4668
[mk-app] #4538 = #4668 #4668
[instance] 0x0 #4538
[attach-enode] #4538 0
[end-of-instance]
[mk-app] #4538 uInv #270 #4702
[mk-app] #4539 and #3987 #4538
[mk-app] #11010 not #4539
[mk-app] #11011 or #11010 #4724
[mk-quant] #11012 internal_vstd!array.impl&__0.view.?_definition 5 #4726 #11011
[attach-var-names] #11012 (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11013 or #4732 #11012
[mk-app] #4730 or #11004 #4734
[mk-quant] #4731 internal_vstd__array__impl&__0_trait_impl_definition 4 #4736 #4730
[attach-var-names] #4731 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4738 or #1312 #11010 #4742
[mk-quant] #4739 user_vstd__array__array_len_matches_n_0 5 #4745 #4738
[attach-var-names] #4739 (|ar!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4733 or #4750 #4739
[mk-app] #4749 uInv #270 #4771
[mk-app] #4748 and #3403 #4749
[mk-app] #4751 not #4748
[mk-app] #11014 or #4751 #4778
[mk-quant] #11015 internal_vstd!array.impl&__2.spec_index.?_definition 6 #4780 #11014
[attach-var-names] #11015 (|i!| ; |Poly|) (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11016 or #4786 #11015
[mk-app] #4784 or #11004 #4788
[mk-quant] #4785 internal_vstd__array__impl&__2_trait_impl_definition 4 #4790 #4784
[attach-var-names] #4785 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4792 and #3403 #4749 #514 #4813
[mk-app] #4793 not #4792
[mk-app] #4787 or #4819 #4793 #4802
[mk-quant] #11017 user_vstd__array__lemma_array_index_0 6 #4807 #4787
[attach-var-names] #11017 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11018 or #4810 #11017
[mk-app] #4816 or #4855 #4751 #4845
[inst-discovered] theory-solving 0x0 basic# ; #4816
[mk-app] #4817 = #4816 #4816
[instance] 0x0 #4817
[attach-enode] #4817 0
[end-of-instance]
[mk-quant] #4817 user_vstd__array__axiom_array_ext_equal_1 6 #4842 #4816
[attach-var-names] #4817 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4820 or #4857 #4817
[mk-app] #4856 or #4819 #4751 #4874 #4872 #4861
[inst-discovered] theory-solving 0x0 basic# ; #4856
[mk-app] #4846 = #4856 #4856
[instance] 0x0 #4846
[attach-enode] #4846 0
[end-of-instance]
[mk-quant] #4846 user_vstd__array__axiom_array_has_resolved_0 6 #4866 #4856
[attach-var-names] #4846 (|i!| ; |Poly|) (|array!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4858 or #4869 #4846
[mk-app] #4783 or #1312 #11010 #4878
[mk-quant] #4875 user_vstd__array__axiom_array_decreases_to_seq_0 5 #4881 #4783
[attach-var-names] #4875 (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4873 or #4886 #4875
[mk-app] #4729 and #3403 #4749 #514 #4903
[mk-app] #4885 not #4729
[mk-app] #4884 or #4819 #4885 #4894
[mk-quant] #4887 user_vstd__array__lemma_array_index_decreases_0 6 #4897 #4884
[attach-var-names] #4887 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #4870 or #4900 #4887
[inst-discovered] theory-solving 0x0 basic# ; #4991
[mk-app] #4906 = #4991 #4991
[instance] 0x0 #4906
[attach-enode] #4906 0
[end-of-instance]
[mk-app] #4906 * #363 #284
[mk-app] #4907 + #4906 #5063
[mk-app] #4909 + #5063 #4906
[inst-discovered] theory-solving 0x0 arith# ; #4909
[mk-app] #4908 = #4909 #4907
[instance] 0x0 #4908
[attach-enode] #4908 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #4909 * #363 #5063
[mk-app] #4908 + #284 #4909
[mk-app] #4901 >= #4908 #289
[mk-app] #4818 <= #4907 #363
[inst-discovered] theory-solving 0x0 arith# ; #4818
[mk-app] #4811 = #4818 #4901
[instance] 0x0 #4811
[attach-enode] #4811 0
[end-of-instance]
[mk-app] #4906 uClip #270 #5063
[mk-app] #4907 I #4906
[mk-app] #4818 core!option.Option./Some #4907
[mk-app] #4811 if #4901 #4818 #1714
[mk-app] #11019 Poly%core!option.Option. #4811
[mk-app] #11020 = #5252 #11019
[mk-quant] #11021 internal_vstd!std_specs.range.impl&__24.spec_forward_checked_int.?_definition 2 #5262 #11020
[attach-var-names] #11021 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #11022 or #5267 #11021
[mk-app] #5268 * #363 #330
[mk-app] #5269 + #5268 #5063
[mk-app] #5270 + #5063 #5268
[inst-discovered] theory-solving 0x0 arith# ; #5270
[mk-app] #5271 = #5270 #5269
[instance] 0x0 #5271
[attach-enode] #5271 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #5270 + #330 #4909
[mk-app] #5271 >= #5270 #289
[mk-app] #5272 <= #5269 #363
[inst-discovered] theory-solving 0x0 arith# ; #5272
[mk-app] #5273 = #5272 #5271
[instance] 0x0 #5273
[attach-enode] #5273 0
[end-of-instance]
[mk-app] #5269 iClip #270 #5063
[mk-app] #5272 I #5269
[mk-app] #5273 core!option.Option./Some #5272
[mk-app] #5274 if #5271 #5273 #1714
[mk-app] #5265 Poly%core!option.Option. #5274
[mk-app] #11023 = #5348 #5265
[mk-quant] #11024 internal_vstd!std_specs.range.impl&__30.spec_forward_checked_int.?_definition 2 #5358 #11023
[attach-var-names] #11024 (|count!| ; |Poly|) (|self!| ; |Poly|)
[mk-app] #5268 or #5363 #11024
[mk-app] #5365 uInv #270 #5421
[mk-app] #5366 or #5426 #5365
[mk-quant] #5367 internal_vstd!std_specs.vec.spec_vec_len.?_pre_post_definition 5 #5424 #5366
[attach-var-names] #5367 (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #5482
[mk-app] #5427 = #5482 #5482
[instance] 0x0 #5427
[attach-enode] #5427 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5496
[mk-app] #5427 = #5496 #5496
[instance] 0x0 #5427
[attach-enode] #5427 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5790
[mk-app] #5427 = #5790 #5790
[instance] 0x0 #5427
[attach-enode] #5427 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5993
[mk-app] #5427 = #5993 #5993
[instance] 0x0 #5427
[attach-enode] #5427 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6054
[mk-app] #5427 = #6054 #6054
[instance] 0x0 #5427
[attach-enode] #5427 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6110
[mk-app] #5427 = #6110 #6110
[instance] 0x0 #5427
[attach-enode] #5427 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6161
[mk-app] #5427 = #6161 #6161
[instance] 0x0 #5427
[attach-enode] #5427 0
[end-of-instance]
[mk-app] #5427 and #10992 #6332
[mk-app] #5428 = #6330 #5427
[mk-quant] #5368 internal_ens__alloc!vec.impl&__1.len._definition 6 #6335 #5428
[attach-var-names] #5368 (|len!| ; |Int|) (|vec!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #5369 has_type #6486 #3200
[mk-app] #5370 or #1726 #5369
[mk-quant] #5361 internal_u_tokenizer!text.Show.shown.?_pre_post_definition 3 #6489 #5370
[attach-var-names] #5361 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6491 has_type #6494 #3200
[mk-app] #6492 or #1726 #6491
[mk-quant] #11025 internal_u_tokenizer!text.StrShim.sv.?_pre_post_definition 3 #6497 #6492
[attach-var-names] #11025 (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #6499 has_type #32 #3200
[mk-app] #6500 not #6499
[mk-app] #11026 or #6500 #6603
[mk-quant] #11027 internal_u_tokenizer!text.blen._fuel_to_body_definition 2 #6605 #11026
[attach-var-names] #11027 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #6608 has_type #33 #3200
[mk-app] #6609 not #6608
[mk-app] #11028 or #6609 #6615
[mk-quant] #11029 internal_u_tokenizer!text.blen.?_definition 1 #6617 #11028
[attach-var-names] #11029 (|s!| ; |Poly|)
[mk-app] #11030 or #6622 #11029
[mk-app] #6620 or #6500 #6645
[mk-quant] #6621 internal_u_tokenizer!text.end_trimmed._fuel_to_body_definition 2 #6639 #6620
[attach-var-names] #6621 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #6646 or #6609 #6653
[mk-quant] #6647 internal_u_tokenizer!text.end_trimmed.?_definition 1 #6655 #6646
[attach-var-names] #6647 (|s!| ; |Poly|)
[mk-app] #6623 or #6660 #6647
[mk-app] #6658 or #6500 #6682
[mk-quant] #6659 internal_u_tokenizer!text.start_trimmed._fuel_to_body_definition 2 #6678 #6658
[attach-var-names] #6659 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #6683 or #6609 #6690
[mk-quant] #6684 internal_u_tokenizer!text.start_trimmed.?_definition 1 #6692 #6683
[attach-var-names] #6684 (|s!| ; |Poly|)
[mk-app] #6661 or #6697 #6684
[mk-app] #6695 + #330 #6754
[mk-app] #6696 >= #6695 #289
[mk-app] #6698 = #6743 #6696
[mk-quant] #11031 internal_ens__u_tokenizer!text.axiom_fits._definition 1 #6748 #6698
[attach-var-names] #11031 (|s!| ; |strslice%.|)
[mk-app] #6755 or #6774 #6752
[inst-discovered] theory-solving 0x0 basic# ; #6755
[mk-app] #6753 = #6755 #6755
[instance] 0x0 #6753
[attach-enode] #6753 0
[end-of-instance]
[mk-app] #6775 vstd!seq_lib.impl&%0.map_values.? #120 #1341 #120 #3200 #33 #6958
[mk-app] #6753 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #6775
[mk-app] #6756 = #6955 #6753
[mk-quant] #6757 internal_u_tokenizer!text.sviews.?_definition 1 #6962 #6756
[attach-var-names] #6757 (|v!| ; |Poly|)
[mk-app] #11032 or #6965 #6757
[mk-app] #6966 * #363 #330
[mk-app] #11033 + #122 #6966
[mk-app] #11034 <= #11033 #363
[mk-app] #11035 and #10992 #6977 #11034
[mk-app] #11036 = #6974 #11035
[mk-quant] #11037 internal_ens__u_tokenizer!lst.length._definition 4 #6981 #11036
[attach-var-names] #11037 (|r!| ; |Int|) (|x!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #7029
[mk-app] #5364 = #7029 #7029
[instance] 0x0 #5364
[attach-enode] #5364 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7101
[mk-app] #5364 = #7101 #7101
[instance] 0x0 #5364
[attach-enode] #5364 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7150
[mk-app] #5364 = #7150 #7150
[instance] 0x0 #5364
[attach-enode] #5364 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7166
[mk-app] #5364 = #7166 #7166
[instance] 0x0 #5364
[attach-enode] #5364 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7168
[mk-app] #5364 = #7168 #7168
[instance] 0x0 #5364
[attach-enode] #5364 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7182
[mk-app] #5364 = #7182 #7182
[instance] 0x0 #5364
[attach-enode] #5364 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7185
[mk-app] #5364 = #7185 #7185
[instance] 0x0 #5364
[attach-enode] #5364 0
[end-of-instance]
[mk-app] #5364 + #330 #7213
[mk-app] #6986 >= #5364 #289
[mk-app] #6987 and #7206 #7208 #6986
[mk-app] #6988 = #7190 #6987
[mk-quant] #6989 internal_u_tokenizer!lex.impl&__1.wf.?_definition 1 #7202 #6988
[attach-var-names] #6989 (|self!| ; |Poly|)
[mk-app] #6990 or #7211 #6989
[inst-discovered] theory-solving 0x0 basic# ; #7325
[mk-app] #7214 = #7325 #7325
[instance] 0x0 #7214
[attach-enode] #7214 0
[end-of-instance]
[mk-app] #7214 or #6500 #7405
[mk-quant] #7212 internal_u_tokenizer!lex.value._fuel_to_body_definition 2 #7407 #7214
[attach-var-names] #7212 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #6607 or #6609 #7416
[mk-quant] #7409 internal_u_tokenizer!lex.value.?_definition 1 #7418 #6607
[attach-var-names] #7409 (|s!| ; |Poly|)
[mk-app] #7410 or #7423 #7409
[inst-discovered] theory-solving 0x0 basic# ; #7457
[mk-app] #7421 = #7457 #7457
[instance] 0x0 #7421
[attach-enode] #7421 0
[end-of-instance]
[mk-app] #7421 + #284 #7480
[mk-app] #7422 >= #7421 #289
[mk-app] #7424 not #7422
[mk-app] #7215 if #1820 #7467 #7424
[mk-app] #7216 and #7463 #7215
[mk-app] #7217 = #7461 #7216
[mk-quant] #7209 internal_ens__u_tokenizer!lex.parse_usize._definition 4 #7472 #7217
[attach-var-names] #7209 (|r!| ; |core!result.Result.|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #7672
[mk-app] #7481 = #7672 #7672
[instance] 0x0 #7481
[attach-enode] #7481 0
[end-of-instance]
[mk-app] #7481 has_type #63 #3200
[mk-app] #7479 and #7481 #4205 #8332
[mk-app] #7482 not #7479
[mk-app] #7483 or #7482 #8357
[mk-quant] #7484 internal_u_tokenizer!lex.scan._fuel_to_body_definition 4 #8347 #7483
[attach-var-names] #7484 (|fuel%| ; |Fuel|) (|w!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8358 has_type #43 #3200
[mk-app] #8359 and #8358 #3976 #2108
[mk-app] #8360 not #8359
[mk-app] #7485 or #8360 #8366
[mk-quant] #7486 internal_u_tokenizer!lex.scan.?_definition 3 #8368 #7485
[attach-var-names] #7486 (|w!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #11038 or #8374 #7486
[mk-app] #8371 and #8358 #3976
[mk-app] #8372 not #8371
[mk-app] #8373 vstd!seq.Seq.empty.? #120 #3200
[mk-app] #8375 vstd!seq.Seq.push.? #120 #3200 #8373 #8395
[mk-app] #11039 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8375
[mk-app] #11040 Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #11039
[mk-app] #11041 vstd!seq.Seq.add.? #120 #3200 #11040 #8465
[mk-app] #11042 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #11041
[mk-app] #11043 u_tokenizer!lex.Comment./Comment #11042 #8470 #8473
[mk-app] #11044 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #11040
[mk-app] #11045 u_tokenizer!lex.Comment./Comment #11044 #8430 #8475
[mk-app] #11046 if #8460 #11043 #11045
[mk-app] #11047 = #8383 #11046
[mk-app] #11048 or #8372 #11047
[mk-quant] #11049 internal_u_tokenizer!lex.comment._fuel_to_body_definition 3 #8436 #11048
[attach-var-names] #11049 (|fuel%| ; |Fuel|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8466 and #6499 #185
[mk-app] #8467 not #8466
[mk-app] #8474 or #8467 #8482
[mk-quant] #8476 internal_u_tokenizer!lex.comment.?_definition 2 #8484 #8474
[attach-var-names] #8476 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8477 or #8490 #8476
[mk-app] #8488 vstd!seq.Seq.push.? #120 #3200 #32 #33
[mk-app] #8489 if #8496 #32 #8488
[mk-app] #8491 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #8489
[mk-app] #8478 = #8494 #8491
[mk-quant] #8480 internal_u_tokenizer!lex.kept.?_definition 2 #8501 #8478
[attach-var-names] #8480 (|cur!| ; |Poly|) (|done!| ; |Poly|)
[mk-app] #8481 or #8504 #8480
[mk-app] #8505 TYPE%vstd!seq.Seq. #120 #3200
[mk-app] #11050 has_type #32 #8505
[mk-app] #11051 not #11050
[mk-app] #11052 vstd!seq.Seq.len.? #120 #3200 #32
[mk-app] #11053 = #11052 #334
[mk-app] #11054 tuple%2./tuple%2 #8373 #6465
[mk-app] #11055 vstd!seq.Seq.last.? #120 #3200 #32
[mk-app] #11056 %Poly%vstd!seq.Seq<char.>. #11055
[mk-app] #11057 Poly%vstd!seq.Seq<char.>. #11056
[mk-app] #11058 vstd!seq.Seq.len.? #120 #244 #11057
[mk-app] #11059 = #11058 #334
[mk-app] #11060 vstd!seq_lib.impl&%0.drop_last.? #120 #3200 #32
[mk-app] #11061 u_tokenizer!lex.rec%para_state.? #11060 #6585
[mk-app] #11062 Poly%tuple%2. #11061
[mk-app] #11063 %Poly%tuple%2. #11062
[mk-app] #11064 tuple%2./tuple%2/0 #11063
[mk-app] #11065 %Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #11064
[mk-app] #11066 Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #11065
[mk-app] #11067 tuple%2./tuple%2/1 #11063
[mk-app] #11068 %Poly%vstd!seq.Seq<char.>. #11067
[mk-app] #11069 Poly%vstd!seq.Seq<char.>. #11068
[mk-app] #11070 u_tokenizer!lex.kept.? #11066 #11069
[mk-app] #11071 Poly%vstd!seq.Seq<vstd!seq.Seq<char.>.>. #11070
[mk-app] #11072 tuple%2./tuple%2 #11071 #6465
[mk-app] #11073 vstd!seq.Seq.len.? #120 #244 #11069
[mk-app] #11074 = #11073 #334
[mk-app] #11075 tuple%2./tuple%2 #11066 #11057
[mk-app] #11076 vstd!seq.Seq.push.? #120 #244 #11069 #6759
[mk-app] #11077 vstd!seq.Seq.add.? #120 #244 #11076 #11057
[mk-app] #11078 tuple%2./tuple%2 #11066 #11077
[mk-app] #11079 if #11074 #11075 #11078
[mk-app] #11080 if #11059 #11072 #11079
[mk-app] #11081 if #11053 #11054 #11080
[mk-app] #11082 = #8513 #11081
[mk-app] #11083 or #11051 #11082
[mk-quant] #11084 internal_u_tokenizer!lex.para_state._fuel_to_body_definition 2 #8546 #11083
[attach-var-names] #11084 (|fuel%| ; |Fuel|) (|ls!| ; |Poly|)
[mk-app] #8549 has_type #33 #8505
[mk-app] #8550 not #8549
[mk-app] #11085 or #8550 #8556
[mk-quant] #11086 internal_u_tokenizer!lex.para_state.?_definition 1 #8558 #11085
[attach-var-names] #11086 (|ls!| ; |Poly|)
[mk-app] #11087 or #8563 #11086
[mk-app] #8561 TYPE%tuple%2. #120 #8505 #120 #3200
[mk-app] #8562 has_type #8565 #8561
[mk-app] #8564 or #8550 #8562
[mk-quant] #11088 internal_u_tokenizer!lex.para_state.?_pre_post_definition 1 #8558 #8564
[attach-var-names] #11088 (|ls!| ; |Poly|)
[mk-app] #8570 has_type #8572 #8561
[mk-app] #8571 or #11051 #8570
[mk-quant] #11089 internal_u_tokenizer!lex.rec__para_state.?_pre_post_rec_definition 2 #8510 #8571
[attach-var-names] #11089 (|fuel%| ; |Fuel|) (|ls!| ; |Poly|)
[inst-discovered] theory-solving 0x0 basic# ; #8681
[mk-app] #8548 = #8681 #8681
[instance] 0x0 #8548
[attach-enode] #8548 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8829
[mk-app] #8548 = #8829 #8829
[instance] 0x0 #8548
[attach-enode] #8548 0
[end-of-instance]
[mk-app] #8548 or #8467 #8842
[mk-quant] #8576 internal_u_tokenizer!lex.step.?_pre_post_definition 2 #8826 #8548
[attach-var-names] #8576 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8856 or #8372 #8925
[mk-quant] #8857 internal_u_tokenizer!lex.lexed._fuel_to_body_definition 3 #8903 #8856
[attach-var-names] #8857 (|fuel%| ; |Fuel|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8479 or #8467 #8929
[mk-quant] #8926 internal_u_tokenizer!lex.lexed.?_definition 2 #8931 #8479
[attach-var-names] #8926 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #8927 or #8936 #8926
[inst-discovered] theory-solving 0x0 basic# ; #8954
[mk-app] #8487 = #8954 #8954
[instance] 0x0 #8487
[attach-enode] #8487 0
[end-of-instance]
[mk-app] #8487 and #7481 #4205 #8965
[mk-app] #8934 not #8487
[mk-app] #8935 or #8934 #9009
[mk-quant] #8937 internal_u_tokenizer!lex.covers._fuel_to_body_definition 4 #8994 #8935
[attach-var-names] #8937 (|fuel%| ; |Fuel|) (|toks!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #9010 and #8358 #3976 #1545
[mk-app] #9011 not #9010
[mk-app] #9012 or #9011 #9017
[mk-quant] #8577 internal_u_tokenizer!lex.covers.?_definition 3 #9019 #9012
[attach-var-names] #8577 (|toks!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #11090 or #9025 #8577
[mk-app] #9022 and #3106 #2611 #5520
[mk-app] #9023 not #9022
[mk-app] #9024 or #9023 #9619
[mk-quant] #9026 internal_core__array__impl&__20_trait_impl_definition 4 #9621 #9024
[attach-var-names] #9026 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9623 and #3403 #3106 #2611 #9703
[mk-app] #9624 not #9623
[mk-app] #9625 or #9624 #9706
[mk-quant] #11091 internal_core__array__equality__impl&__4_trait_impl_definition 6 #9708 #9625
[attach-var-names] #11091 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9711 or #9624 #9747
[mk-quant] #9712 internal_core__array__equality__impl&__6_trait_impl_definition 6 #9749 #9711
[attach-var-names] #9712 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9751 or #9624 #9769
[mk-quant] #9752 internal_core__array__equality__impl&__0_trait_impl_definition 6 #9771 #9751
[attach-var-names] #9752 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9773 or #9624 #9775
[mk-quant] #9774 internal_core__array__equality__impl&__1_trait_impl_definition 6 #9777 #9773
[attach-var-names] #9774 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9779 or #9624 #9781
[mk-quant] #9780 internal_core__array__equality__impl&__3_trait_impl_definition 6 #9783 #9779
[attach-var-names] #9780 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9785 or #9624 #9788
[mk-quant] #9786 internal_core__array__equality__impl&__5_trait_impl_definition 6 #9790 #9785
[attach-var-names] #9786 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9792 or #9624 #9794
[mk-quant] #9793 internal_core__array__equality__impl&__2_trait_impl_definition 6 #9796 #9792
[attach-var-names] #9793 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9710 and #9850 #3403 #3106 #2611 #6368 #9851
[mk-app] #9798 not #9710
[mk-app] #9799 or #9798 #9881
[mk-quant] #11092 internal_alloc__vec__partial_eq__impl&__10_trait_impl_definition 8 #9883 #9799
[attach-var-names] #11092 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9886 or #9798 #9888
[mk-quant] #9887 internal_alloc__vec__partial_eq__impl&__11_trait_impl_definition 8 #9890 #9886
[attach-var-names] #9887 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9885 and #3106 #2611 #9929
[mk-app] #9892 not #9885
[mk-app] #9893 or #9892 #9931
[mk-quant] #11093 internal_core__array__impl&__17_trait_impl_definition 4 #9933 #9893
[attach-var-names] #11093 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #9935 and #3106 #2611 #5529
[mk-app] #9936 not #9935
[mk-app] #9937 or #9936 #10021
[mk-quant] #11094 internal_core__array__impl&__19_trait_impl_definition 4 #10023 #9937
[attach-var-names] #11094 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10025 or #11004 #10115
[mk-quant] #10026 internal_core__array__impl&__13_trait_impl_definition 4 #10117 #10025
[attach-var-names] #10026 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #10119 or #11004 #10139
[mk-quant] #10120 internal_core__array__impl&__14_trait_impl_definition 4 #10141 #10119
[attach-var-names] #10120 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #3152 and #3106 #2611 #10189
[mk-app] #10143 not #3152
[mk-app] #10144 or #10143 #10191
[mk-quant] #10027 internal_core__array__impl&__12_trait_impl_definition 4 #10193 #10144
[attach-var-names] #10027 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #10639
[mk-app] #10195 = #10639 #10639
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10904
[mk-app] #10195 = #10904 #10904
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10910
[mk-app] #10195 = #10910 #10910
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10958
[mk-app] #10195 = #10958 #10958
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10959
[mk-app] #10195 = #10959 #10959
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10958
[mk-app] #10195 = #10958 #10958
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10959
[mk-app] #10195 = #10959 #10959
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10904
[mk-app] #10195 = #10904 #10904
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10910
[mk-app] #10195 = #10910 #10910
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10639
[mk-app] #10195 = #10639 #10639
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8954
[mk-app] #10195 = #8954 #8954
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8829
[mk-app] #10195 = #8829 #8829
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8681
[mk-app] #10195 = #8681 #8681
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7672
[mk-app] #10195 = #7672 #7672
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7457
[mk-app] #10195 = #7457 #7457
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7325
[mk-app] #10195 = #7325 #7325
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7182
[mk-app] #10195 = #7182 #7182
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7185
[mk-app] #10195 = #7185 #7185
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7166
[mk-app] #10195 = #7166 #7166
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7168
[mk-app] #10195 = #7168 #7168
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7150
[mk-app] #10195 = #7150 #7150
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7101
[mk-app] #10195 = #7101 #7101
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7029
[mk-app] #10195 = #7029 #7029
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6755
[mk-app] #10195 = #6755 #6755
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6161
[mk-app] #10195 = #6161 #6161
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6110
[mk-app] #10195 = #6110 #6110
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6054
[mk-app] #10195 = #6054 #6054
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5993
[mk-app] #10195 = #5993 #5993
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5790
[mk-app] #10195 = #5790 #5790
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5496
[mk-app] #10195 = #5496 #5496
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5482
[mk-app] #10195 = #5482 #5482
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4991
[mk-app] #10195 = #4991 #4991
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4856
[mk-app] #10195 = #4856 #4856
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4816
[mk-app] #10195 = #4816 #4816
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4668
[mk-app] #10195 = #4668 #4668
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4657
[mk-app] #10195 = #4657 #4657
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4629
[mk-app] #10195 = #4629 #4629
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4523
[mk-app] #10195 = #4523 #4523
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4427
[mk-app] #10195 = #4427 #4427
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4410
[mk-app] #10195 = #4410 #4410
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4397
[mk-app] #10195 = #4397 #4397
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4328
[mk-app] #10195 = #4328 #4328
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4185
[mk-app] #10195 = #4185 #4185
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4164
[mk-app] #10195 = #4164 #4164
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4115
[mk-app] #10195 = #4115 #4115
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4096
[mk-app] #10195 = #4096 #4096
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4046
[mk-app] #10195 = #4046 #4046
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #2997
[mk-app] #10195 = #2997 #2997
[instance] 0x0 #10195
[attach-enode] #10195 0
[end-of-instance]
[mk-app] #10195 TYPE%vstd!seq.Seq. #120 #3204
[mk-app] #10196 has_type #1498 #10195
[mk-app] #10197 pattern #10196
[mk-quant] #11095 internal_vstd__seq__Seq<vstd!seq.Seq<char.>.>_has_type_always_definition 1 #10197 #10196
[attach-var-names] #11095 (|x| ; |vstd!seq.Seq<vstd!seq.Seq<char.>.>.|)
[mk-app] #11096 has_type #33 #10195
[mk-app] #11097 not #11096
[mk-app] #11098 or #11097 #1507
[mk-app] #11099 pattern #11096
[mk-quant] #11100 internal_vstd__seq__Seq<vstd!seq.Seq<char.>.>_unbox_axiom_definition 1 #11099 #11098
[attach-var-names] #11100 (|x| ; |Poly|)
[mk-app] #1511 has_type #1458 #3204
[mk-app] #1512 pattern #1511
[mk-quant] #1513 internal_vstd__seq__Seq<char.>_has_type_always_definition 1 #1512 #1511
[attach-var-names] #1513 (|x| ; |vstd!seq.Seq<char.>.|)
[mk-app] #11101 has_type #33 #3204
[mk-app] #11102 not #11101
[mk-app] #11103 or #11102 #1467
[mk-app] #11104 pattern #11101
[mk-quant] #11105 internal_vstd__seq__Seq<char.>_unbox_axiom_definition 1 #11104 #11103
[attach-var-names] #11105 (|x| ; |Poly|)
[inst-discovered] theory-solving 0x0 basic# ; #1089
[mk-app] #1471 = #1089 #1089
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #524
[mk-app] #1471 = #524 #524
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #524
[mk-app] #1471 = #524 #524
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1089
[mk-app] #1471 = #1089 #1089
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #2997
[mk-app] #1471 = #2997 #2997
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4046
[mk-app] #1471 = #4046 #4046
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4096
[mk-app] #1471 = #4096 #4096
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4115
[mk-app] #1471 = #4115 #4115
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4164
[mk-app] #1471 = #4164 #4164
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4185
[mk-app] #1471 = #4185 #4185
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4328
[mk-app] #1471 = #4328 #4328
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4397
[mk-app] #1471 = #4397 #4397
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4410
[mk-app] #1471 = #4410 #4410
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4427
[mk-app] #1471 = #4427 #4427
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4523
[mk-app] #1471 = #4523 #4523
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4629
[mk-app] #1471 = #4629 #4629
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4657
[mk-app] #1471 = #4657 #4657
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4668
[mk-app] #1471 = #4668 #4668
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4816
[mk-app] #1471 = #4816 #4816
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4856
[mk-app] #1471 = #4856 #4856
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4991
[mk-app] #1471 = #4991 #4991
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5482
[mk-app] #1471 = #5482 #5482
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5496
[mk-app] #1471 = #5496 #5496
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5790
[mk-app] #1471 = #5790 #5790
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5993
[mk-app] #1471 = #5993 #5993
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6054
[mk-app] #1471 = #6054 #6054
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6110
[mk-app] #1471 = #6110 #6110
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6161
[mk-app] #1471 = #6161 #6161
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6755
[mk-app] #1471 = #6755 #6755
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7029
[mk-app] #1471 = #7029 #7029
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7101
[mk-app] #1471 = #7101 #7101
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7150
[mk-app] #1471 = #7150 #7150
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7166
[mk-app] #1471 = #7166 #7166
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7168
[mk-app] #1471 = #7168 #7168
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7182
[mk-app] #1471 = #7182 #7182
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7185
[mk-app] #1471 = #7185 #7185
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7325
[mk-app] #1471 = #7325 #7325
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7457
[mk-app] #1471 = #7457 #7457
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7672
[mk-app] #1471 = #7672 #7672
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8681
[mk-app] #1471 = #8681 #8681
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8829
[mk-app] #1471 = #8829 #8829
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8954
[mk-app] #1471 = #8954 #8954
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10639
[mk-app] #1471 = #10639 #10639
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10904
[mk-app] #1471 = #10904 #10904
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10910
[mk-app] #1471 = #10910 #10910
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10958
[mk-app] #1471 = #10958 #10958
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10959
[mk-app] #1471 = #10959 #10959
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #524
[mk-app] #1471 = #524 #524
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1089
[mk-app] #1471 = #1089 #1089
[instance] 0x0 #1471
[attach-enode] #1471 0
[end-of-instance]
[mk-app] #1471 T%0!skolem_internal_crate__fun__1_constructor_inner_definition!0 #156 #65 #1217
[mk-app] #1472 has_type #1471 #1217
[mk-app] #1473 not #1472
[mk-app] #11106 %%apply%%0 #156 #1471
[mk-app] #11107 has_type #11106 #65
[mk-app] #11108 or #1473 #11107
[mk-app] #11109 not #11108
[mk-app] #11110 or #11109 #1238
[mk-quant] #11111 internal_crate__fun__1_constructor_definition 5 #1240 #11110
[attach-var-names] #11111 (|x| ; |%%Function%%|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #11112 not #1275
[mk-app] #11113 not #1276
[mk-app] #11114 T%0!skolem_internal_crate__fun__1_inner_ext_equal_definition!1 #33 #32 #1273 #1217 #1272
[mk-app] #11115 has_type #11114 #1272
[mk-app] #11116 not #11115
[mk-app] #11117 %%apply%%0 #1281 #11114
[mk-app] #11118 %%apply%%0 #1220 #11114
[mk-app] #11119 ext_eq #1273 #1217 #11117 #11118
[mk-app] #11120 or #11116 #11119
[mk-app] #11121 not #11120
[mk-app] #11122 or #11112 #11113 #11121
[mk-app] #11123 or #11122 #1288
[mk-quant] #11124 internal_crate__fun__1_ext_equal_definition 7 #1290 #11123
[attach-var-names] #11124 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #11125 or #11112 #11113 #11121 #1288
[inst-discovered] theory-solving 0x0 basic# ; #11125
[mk-app] #11126 = #11125 #11125
[instance] 0x0 #11126
[attach-enode] #11126 0
[end-of-instance]
[mk-quant] #11126 internal_crate__fun__1_ext_equal_definition 7 #1290 #11125
[attach-var-names] #11126 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #11122 i!skolem_prelude_has_type_array_elts!2 #156 #219 #263
[mk-app] #11123 >= #11122 #334
[mk-app] #11124 + #11122 #562
[mk-app] #11127 >= #11124 #334
[mk-app] #11128 not #11127
[mk-app] #11129 and #11123 #11128
[mk-app] #11130 not #11129
[mk-app] #11131 %%apply%%1 #156 #11122
[mk-app] #11132 has_type #11131 #263
[mk-app] #11133 or #11130 #11132
[mk-app] #11134 not #11133
[mk-app] #11135 or #11134 #2826
[mk-quant] #11136 prelude_has_type_array_new 4 #2815 #11135
[attach-var-names] #11136 (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #11137 + #562 #11122
[inst-discovered] theory-solving 0x0 arith# ; #11124
[mk-app] #11138 = #11124 #11137
[instance] 0x0 #11138
[attach-enode] #11138 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11138 * #363 #11122
[mk-app] #11139 + #219 #11138
[mk-app] #11140 <= #11139 #334
[mk-app] #11141 >= #11137 #334
[inst-discovered] theory-solving 0x0 arith# ; #11141
[mk-app] #11142 = #11141 #11140
[instance] 0x0 #11142
[attach-enode] #11142 0
[end-of-instance]
[mk-app] #11137 not #11140
[mk-app] #11141 and #11123 #11137
[mk-app] #11142 not #11141
[mk-app] #11143 or #11142 #11132
[mk-app] #11144 not #11143
[mk-app] #11145 or #11144 #2826
[mk-quant] #11146 prelude_has_type_array_new 4 #2815 #11145
[attach-var-names] #11146 (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #2997
[mk-app] #11134 = #2997 #2997
[instance] 0x0 #11134
[attach-enode] #11134 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4046
[mk-app] #11134 = #4046 #4046
[instance] 0x0 #11134
[attach-enode] #11134 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4096
[mk-app] #11134 = #4096 #4096
[instance] 0x0 #11134
[attach-enode] #11134 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4115
[mk-app] #11134 = #4115 #4115
[instance] 0x0 #11134
[attach-enode] #11134 0
[end-of-instance]
[mk-app] #11134 not #4138
[mk-app] #11135 not #4140
[mk-app] #11136 i$!skolem_user_vstd__seq__lemma_seq_ext_equal_0!3 #33 #32 #263 #1249
[mk-app] #11147 has_type #11136 #184
[mk-app] #11148 not #11147
[mk-app] #11149 %I #11136
[mk-app] #11150 >= #11149 #334
[mk-app] #11151 + #11149 #3898
[mk-app] #11152 >= #11151 #334
[mk-app] #11153 not #11152
[mk-app] #11154 and #11150 #11153
[mk-app] #11155 not #11154
[mk-app] #11156 vstd!seq.Seq.index.? #1249 #263 #32 #11136
[mk-app] #11157 vstd!seq.Seq.index.? #1249 #263 #33 #11136
[mk-app] #11158 = #11156 #11157
[mk-app] #11159 or #11148 #11155 #11158
[mk-app] #11160 not #11159
[mk-app] #11161 or #11135 #11160
[mk-app] #11162 or #11134 #4156
[mk-app] #11163 or #4138 #11161
[mk-app] #11164 and #11162 #11163
[mk-app] #11165 or #4163 #4044 #11164
[mk-quant] #11166 user_vstd__seq__lemma_seq_ext_equal_1 4 #4153 #11165
[attach-var-names] #11166 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11167 or #4165 #11166
[mk-app] #11168 + #3898 #11149
[inst-discovered] theory-solving 0x0 arith# ; #11151
[mk-app] #11169 = #11151 #11168
[instance] 0x0 #11169
[attach-enode] #11169 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11169 * #363 #11149
[mk-app] #11170 + #3887 #11169
[mk-app] #11171 <= #11170 #334
[mk-app] #11172 >= #11168 #334
[inst-discovered] theory-solving 0x0 arith# ; #11172
[mk-app] #11173 = #11172 #11171
[instance] 0x0 #11173
[attach-enode] #11173 0
[end-of-instance]
[mk-app] #11172 not #11171
[mk-app] #11173 and #11150 #11172
[mk-app] #11174 not #11173
[mk-app] #11175 or #11148 #11174 #11158
[mk-app] #11176 not #11175
[mk-app] #11177 or #11135 #11176
[mk-app] #11178 or #4138 #11135 #11176
[mk-app] #11179 or #4138 #11177
[inst-discovered] theory-solving 0x0 basic# ; #11179
[mk-app] #11180 = #11179 #11178
[instance] 0x0 #11180
[attach-enode] #11180 0
[end-of-instance]
[mk-app] #11179 and #11162 #11178
[mk-app] #11180 or #4163 #4044 #11179
[inst-discovered] theory-solving 0x0 basic# ; #11180
[mk-app] #11181 = #11180 #11180
[instance] 0x0 #11181
[attach-enode] #11181 0
[end-of-instance]
[mk-quant] #11181 user_vstd__seq__lemma_seq_ext_equal_1 4 #4153 #11180
[attach-var-names] #11181 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11168 or #4165 #11181
[mk-app] #11163 not #4168
[mk-app] #11164 i$!skolem_user_vstd__seq__lemma_seq_ext_equal_deep_0!4 #33 #32 #263 #1249
[mk-app] #11165 has_type #11164 #184
[mk-app] #11166 not #11165
[mk-app] #11167 %I #11164
[mk-app] #11177 >= #11167 #334
[mk-app] #11182 + #11167 #3898
[mk-app] #11183 >= #11182 #334
[mk-app] #11184 not #11183
[mk-app] #11185 and #11177 #11184
[mk-app] #11186 not #11185
[mk-app] #11187 vstd!seq.Seq.index.? #1249 #263 #32 #11164
[mk-app] #11188 vstd!seq.Seq.index.? #1249 #263 #33 #11164
[mk-app] #11189 ext_eq #1 #263 #11187 #11188
[mk-app] #11190 or #11166 #11186 #11189
[mk-app] #11191 not #11190
[mk-app] #11192 or #11135 #11191
[mk-app] #11193 or #11163 #4180
[mk-app] #11194 or #4168 #11192
[mk-app] #11195 and #11193 #11194
[mk-app] #11196 or #4163 #4044 #11195
[mk-quant] #11197 user_vstd__seq__lemma_seq_ext_equal_deep_1 4 #4177 #11196
[attach-var-names] #11197 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11198 or #4186 #11197
[mk-app] #11199 + #3898 #11167
[inst-discovered] theory-solving 0x0 arith# ; #11182
[mk-app] #11200 = #11182 #11199
[instance] 0x0 #11200
[attach-enode] #11200 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11200 * #363 #11167
[mk-app] #11201 + #3887 #11200
[mk-app] #11202 <= #11201 #334
[mk-app] #11203 >= #11199 #334
[inst-discovered] theory-solving 0x0 arith# ; #11203
[mk-app] #11204 = #11203 #11202
[instance] 0x0 #11204
[attach-enode] #11204 0
[end-of-instance]
[mk-app] #11203 not #11202
[mk-app] #11204 and #11177 #11203
[mk-app] #11205 not #11204
[mk-app] #11206 or #11166 #11205 #11189
[mk-app] #11207 not #11206
[mk-app] #11208 or #11135 #11207
[mk-app] #11209 or #4168 #11135 #11207
[mk-app] #11210 or #4168 #11208
[inst-discovered] theory-solving 0x0 basic# ; #11210
[mk-app] #11211 = #11210 #11209
[instance] 0x0 #11211
[attach-enode] #11211 0
[end-of-instance]
[mk-app] #11210 and #11193 #11209
[mk-app] #11211 or #4163 #4044 #11210
[inst-discovered] theory-solving 0x0 basic# ; #11211
[mk-app] #11212 = #11211 #11211
[instance] 0x0 #11212
[attach-enode] #11212 0
[end-of-instance]
[mk-quant] #11212 user_vstd__seq__lemma_seq_ext_equal_deep_1 4 #4177 #11211
[attach-var-names] #11212 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11199 or #4186 #11212
[inst-discovered] theory-solving 0x0 basic# ; #4328
[mk-app] #11194 = #4328 #4328
[instance] 0x0 #11194
[attach-enode] #11194 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4397
[mk-app] #11194 = #4397 #4397
[instance] 0x0 #11194
[attach-enode] #11194 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4410
[mk-app] #11194 = #4410 #4410
[instance] 0x0 #11194
[attach-enode] #11194 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4427
[mk-app] #11194 = #4427 #4427
[instance] 0x0 #11194
[attach-enode] #11194 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4523
[mk-app] #11194 = #4523 #4523
[instance] 0x0 #11194
[attach-enode] #11194 0
[end-of-instance]
[mk-app] #11194 not #4592
[mk-app] #11195 not #4595
[mk-app] #11196 i$!skolem_user_vstd__slice__axiom_slice_ext_equal_0!5 #33 #32 #263 #1249
[mk-app] #11197 has_type #11196 #184
[mk-app] #11198 not #11197
[mk-app] #11208 %I #11196
[mk-app] #11213 >= #11208 #334
[mk-app] #11214 * #363 #4593
[mk-app] #11215 + #11208 #11214
[mk-app] #11216 >= #11215 #334
[mk-app] #11217 not #11216
[mk-app] #11218 and #11213 #11217
[mk-app] #11219 not #11218
[mk-app] #11220 vstd!seq.Seq.index.? #1249 #263 #4571 #11196
[mk-app] #11221 vstd!view.View.view.? #1198 #3515 #33
[mk-app] #11222 vstd!seq.Seq.index.? #1249 #263 #11221 #11196
[mk-app] #11223 = #11220 #11222
[mk-app] #11224 or #11198 #11219 #11223
[mk-app] #11225 not #11224
[mk-app] #11226 or #11195 #11225
[mk-app] #11227 or #11194 #4617
[mk-app] #11228 or #4592 #11226
[mk-app] #11229 and #11227 #11228
[mk-app] #11230 or #4628 #4044 #11229
[mk-quant] #11231 user_vstd__slice__axiom_slice_ext_equal_1 4 #4614 #11230
[attach-var-names] #11231 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11232 or #4630 #11231
[mk-app] #11233 + #11214 #11208
[inst-discovered] theory-solving 0x0 arith# ; #11215
[mk-app] #11234 = #11215 #11233
[instance] 0x0 #11234
[attach-enode] #11234 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11234 * #363 #11208
[mk-app] #11235 + #4593 #11234
[mk-app] #11236 <= #11235 #334
[mk-app] #11237 >= #11233 #334
[inst-discovered] theory-solving 0x0 arith# ; #11237
[mk-app] #11238 = #11237 #11236
[instance] 0x0 #11238
[attach-enode] #11238 0
[end-of-instance]
[mk-app] #11233 not #11236
[mk-app] #11237 and #11213 #11233
[mk-app] #11238 not #11237
[mk-app] #11239 or #11198 #11238 #11223
[mk-app] #11240 not #11239
[mk-app] #11241 or #11195 #11240
[mk-app] #11242 or #4592 #11195 #11240
[mk-app] #11243 or #4592 #11241
[inst-discovered] theory-solving 0x0 basic# ; #11243
[mk-app] #11244 = #11243 #11242
[instance] 0x0 #11244
[attach-enode] #11244 0
[end-of-instance]
[mk-app] #11243 and #11227 #11242
[mk-app] #11244 or #4628 #4044 #11243
[inst-discovered] theory-solving 0x0 basic# ; #11244
[mk-app] #11245 = #11244 #11244
[instance] 0x0 #11245
[attach-enode] #11245 0
[end-of-instance]
[mk-quant] #11245 user_vstd__slice__axiom_slice_ext_equal_1 4 #4614 #11244
[attach-var-names] #11245 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11241 or #4630 #11245
[inst-discovered] theory-solving 0x0 basic# ; #4657
[mk-app] #11228 = #4657 #4657
[instance] 0x0 #11228
[attach-enode] #11228 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4668
[mk-app] #11228 = #4668 #4668
[instance] 0x0 #11228
[attach-enode] #11228 0
[end-of-instance]
[mk-app] #11228 not #4824
[mk-app] #11229 i$!skolem_user_vstd__array__axiom_array_ext_equal_0!6 #33 #32 #263 #1249 #1229 #1248
[mk-app] #11230 has_type #11229 #184
[mk-app] #11231 not #11230
[mk-app] #11232 %I #11229
[mk-app] #11246 >= #11232 #334
[mk-app] #11247 + #11232 #4814
[mk-app] #11248 >= #11247 #334
[mk-app] #11249 not #11248
[mk-app] #11250 and #11246 #11249
[mk-app] #11251 not #11250
[mk-app] #11252 vstd!seq.Seq.index.? #1248 #1229 #4776 #11229
[mk-app] #11253 vstd!view.View.view.? #120 #4774 #33
[mk-app] #11254 vstd!seq.Seq.index.? #1248 #1229 #11253 #11229
[mk-app] #11255 = #11252 #11254
[mk-app] #11256 or #11231 #11251 #11255
[mk-app] #11257 not #11256
[mk-app] #11258 or #11228 #4853
[mk-app] #11259 or #4824 #11257
[mk-app] #11260 and #11258 #11259
[mk-app] #11261 or #4855 #4751 #11260
[mk-quant] #11262 user_vstd__array__axiom_array_ext_equal_1 6 #4842 #11261
[attach-var-names] #11262 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11263 or #4857 #11262
[mk-app] #11264 + #4814 #11232
[inst-discovered] theory-solving 0x0 arith# ; #11247
[mk-app] #11265 = #11247 #11264
[instance] 0x0 #11265
[attach-enode] #11265 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11265 * #363 #11232
[mk-app] #11266 + #4771 #11265
[mk-app] #11267 <= #11266 #334
[mk-app] #11268 >= #11264 #334
[inst-discovered] theory-solving 0x0 arith# ; #11268
[mk-app] #11269 = #11268 #11267
[instance] 0x0 #11269
[attach-enode] #11269 0
[end-of-instance]
[mk-app] #11264 not #11267
[mk-app] #11268 and #11246 #11264
[mk-app] #11269 not #11268
[mk-app] #11270 or #11231 #11269 #11255
[mk-app] #11271 not #11270
[mk-app] #11272 or #4824 #11271
[inst-discovered] theory-solving 0x0 basic# ; #11272
[mk-app] #11273 = #11272 #11272
[instance] 0x0 #11273
[attach-enode] #11273 0
[end-of-instance]
[mk-app] #11273 and #11258 #11272
[mk-app] #11274 or #4855 #4751 #11273
[inst-discovered] theory-solving 0x0 basic# ; #11274
[mk-app] #11275 = #11274 #11274
[instance] 0x0 #11275
[attach-enode] #11275 0
[end-of-instance]
[mk-quant] #11275 user_vstd__array__axiom_array_ext_equal_1 6 #4842 #11274
[attach-var-names] #11275 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11276 or #4857 #11275
[inst-discovered] theory-solving 0x0 basic# ; #4856
[mk-app] #11259 = #4856 #4856
[instance] 0x0 #11259
[attach-enode] #11259 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4991
[mk-app] #11259 = #4991 #4991
[instance] 0x0 #11259
[attach-enode] #11259 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5482
[mk-app] #11259 = #5482 #5482
[instance] 0x0 #11259
[attach-enode] #11259 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5496
[mk-app] #11259 = #5496 #5496
[instance] 0x0 #11259
[attach-enode] #11259 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5790
[mk-app] #11259 = #5790 #5790
[instance] 0x0 #11259
[attach-enode] #11259 0
[end-of-instance]
[mk-app] #11259 not #5839
[mk-app] #11260 not #5871
[mk-app] #11261 not #5873
[mk-app] #11262 not #5844
[mk-app] #11263 not #5849
[mk-app] #11277 i$!skolem_user_vstd__std_specs__iter__impl&%11__wf_0!7 #33 #65 #64
[mk-app] #11278 has_type #11277 #184
[mk-app] #11279 not #11278
[mk-app] #11280 %I #11277
[mk-app] #11281 >= #11280 #334
[mk-app] #11282 * #363 #5810
[mk-app] #11283 + #11280 #11282
[mk-app] #11284 >= #11283 #334
[mk-app] #11285 not #11284
[mk-app] #11286 and #11281 #11285
[mk-app] #11287 not #11286
[mk-app] #11288 vstd!seq.Seq.index.? #1941 #1942 #1940 #11277
[mk-app] #11289 vstd!seq.Seq.index.? #1941 #1942 #5824 #11277
[mk-app] #11290 = #11288 #11289
[mk-app] #11291 or #11279 #11287 #11290
[mk-app] #11292 not #11291
[mk-app] #11293 or #11263 #11292
[mk-app] #11294 and #5847 #11293
[mk-app] #11295 or #11260 #11261 #11262 #11294
[mk-app] #11296 or #11259 #5885
[mk-app] #11297 or #5839 #11295
[mk-app] #11298 and #11296 #11297
[mk-quant] #11299 internal_vstd!std_specs.iter.impl&__11.wf.?_definition 3 #5867 #11298
[attach-var-names] #11299 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11300 or #5888 #11299
[mk-app] #11301 + #11282 #11280
[inst-discovered] theory-solving 0x0 arith# ; #11283
[mk-app] #11302 = #11283 #11301
[instance] 0x0 #11302
[attach-enode] #11302 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11302 * #363 #11280
[mk-app] #11303 + #5810 #11302
[mk-app] #11304 <= #11303 #334
[mk-app] #11305 >= #11301 #334
[inst-discovered] theory-solving 0x0 arith# ; #11305
[mk-app] #11306 = #11305 #11304
[instance] 0x0 #11306
[attach-enode] #11306 0
[end-of-instance]
[mk-app] #11301 not #11304
[mk-app] #11305 and #11281 #11301
[mk-app] #11306 not #11305
[mk-app] #11307 or #11279 #11306 #11290
[mk-app] #11308 not #11307
[mk-app] #11309 or #11263 #11308
[mk-app] #11310 and #5847 #11309
[mk-app] #11311 or #11260 #11261 #11262 #11310
[inst-discovered] theory-solving 0x0 basic# ; #11311
[mk-app] #11312 = #11311 #11311
[instance] 0x0 #11312
[attach-enode] #11312 0
[end-of-instance]
[mk-app] #11312 or #5839 #11260 #11261 #11262 #11310
[mk-app] #11313 or #5839 #11311
[inst-discovered] theory-solving 0x0 basic# ; #11313
[mk-app] #11314 = #11313 #11312
[instance] 0x0 #11314
[attach-enode] #11314 0
[end-of-instance]
[mk-app] #11313 and #11296 #11312
[mk-quant] #11314 internal_vstd!std_specs.iter.impl&__11.wf.?_definition 3 #5867 #11313
[attach-var-names] #11314 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11311 or #5888 #11314
[mk-app] #11297 not #5919
[mk-app] #11298 m$!skolem_user_vstd__std_specs__iter__impl&%11__next_0!8 #1697 #32 #263 #1249
[mk-app] #11299 has_type #11298 #3581
[mk-app] #11300 FNDEF%core!iter.traits.iterator.Iterator.next. #1249 #263
[mk-app] #11315 TYPE%tuple%1. #120 #3581
[mk-app] #11316 tuple%1./tuple%1 #11298
[mk-app] #11317 Poly%tuple%1. #11316
[mk-app] #11318 closure_ens #11300 #3840 #11315 #5695 #11317 #1698
[mk-app] #11319 mut_ref_current% #11298
[mk-app] #11320 vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper/iter #5931
[mk-app] #11321 = #11319 #11320
[mk-app] #11322 mut_ref_future% #11298
[mk-app] #11323 = #11322 #5934
[mk-app] #11324 and #11299 #11318 #11321 #11323
[mk-app] #11325 and #5920 #5923 #5985 #5933 #5987 #5991 #5993 #5992 #5995 #11324
[mk-app] #11326 not #5920
[mk-app] #11327 not #5923
[mk-app] #11328 not #5985
[mk-app] #11329 not #5933
[mk-app] #11330 not #5987
[mk-app] #11331 not #5991
[mk-app] #11332 not #5993
[mk-app] #11333 not #5992
[mk-app] #11334 not #5995
[mk-app] #11335 not #5996
[mk-quant] #11336 user_vstd__std_specs__iter__impl&%11__next_0 1 #5976 #5977 #11335
[attach-var-names] #11336 (|m$| ; |Poly|)
[mk-app] #11337 or #11326 #11327 #11328 #11329 #11330 #11331 #11332 #11333 #11334 #11336
[mk-app] #11338 or #11297 #11325
[mk-app] #11339 or #5919 #11337
[mk-app] #11340 and #11338 #11339
[mk-quant] #11341 internal_ens__vstd!std_specs.iter.impl&__11.next._definition 4 #5981 #11340
[attach-var-names] #11341 (|ret!| ; |core!option.Option.|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #5993
[mk-app] #11342 = #5993 #5993
[instance] 0x0 #11342
[attach-enode] #11342 0
[end-of-instance]
[mk-app] #11342 and #5920 #5923 #5985 #5933 #5987 #5991 #5993 #5992 #5995 #11299 #11318 #11321 #11323
[inst-discovered] theory-solving 0x0 basic# ; #11325
[mk-app] #11343 = #11325 #11342
[instance] 0x0 #11343
[attach-enode] #11343 0
[end-of-instance]
[mk-app] #11343 or #11297 #11342
[mk-app] #11344 or #5919 #11326 #11327 #11328 #11329 #11330 #11331 #11332 #11333 #11334 #11336
[inst-discovered] theory-solving 0x0 basic# ; #11344
[mk-app] #11345 = #11344 #11344
[instance] 0x0 #11345
[attach-enode] #11345 0
[end-of-instance]
[mk-app] #11345 and #11343 #11344
[mk-quant] #11346 internal_ens__vstd!std_specs.iter.impl&__11.next._definition 4 #5981 #11345
[attach-var-names] #11346 (|ret!| ; |core!option.Option.|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #6054
[mk-app] #11325 = #6054 #6054
[instance] 0x0 #11325
[attach-enode] #11325 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6110
[mk-app] #11325 = #6110 #6110
[instance] 0x0 #11325
[attach-enode] #11325 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6161
[mk-app] #11325 = #6161 #6161
[instance] 0x0 #11325
[attach-enode] #11325 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6755
[mk-app] #11325 = #6755 #6755
[instance] 0x0 #11325
[attach-enode] #11325 0
[end-of-instance]
[mk-app] #11325 not #6799
[mk-app] #11338 i$!skolem_user_u_tokenizer__text__boundary_0!9 #33 #32
[mk-app] #11337 has_type #11338 #184
[mk-app] #11339 u_tokenizer!text.is_at.? #32 #33 #11338
[mk-app] #11340 and #11337 #11339
[mk-app] #11341 not #6800
[mk-quant] #11347 user_u_tokenizer__text__boundary_0 1 #6786 #11341
[attach-var-names] #11347 (|i$| ; |Poly|)
[mk-app] #11348 or #11325 #11340
[mk-app] #11349 or #6799 #11347
[mk-app] #11350 and #11348 #11349
[mk-quant] #11351 internal_u_tokenizer!text.boundary.?_definition 2 #6803 #11350
[attach-var-names] #11351 (|n!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #11352 or #6806 #11351
[mk-app] #11353 not #6810
[mk-quant] #11354 user_u_tokenizer__text__ci_0 1 #6786 #11353
[attach-var-names] #11354 (|i$| ; |Poly|)
[mk-app] #11355 i$!10 #33 #32 #43 #63 #1229
[mk-app] #11356 has_type #11355 #1229
[mk-app] #11357 u_tokenizer!text.is_at.? #63 #43 #11355
[mk-app] #11358 = #6817 #11355
[mk-app] #11359 and #11356 #11357 #11358
[mk-app] #11360 or #11354 #11359
[mk-quant] #11361 k!10301 5 #6818 #11360
[attach-var-names] #11361 (|%%hole%%4| ; |Poly|) (|%%hole%%3| ; |Poly|) (|%%hole%%2| ; |Poly|) (|%%hole%%1| ; |Poly|) (|%%hole%%0| ; |Type|)
[inst-discovered] theory-solving 0x0 basic# ; #11360
[mk-app] #11362 = #11360 #11360
[instance] 0x0 #11362
[attach-enode] #11362 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7029
[mk-app] #11362 = #7029 #7029
[instance] 0x0 #11362
[attach-enode] #11362 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7101
[mk-app] #11362 = #7101 #7101
[instance] 0x0 #11362
[attach-enode] #11362 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7150
[mk-app] #11362 = #7150 #7150
[instance] 0x0 #11362
[attach-enode] #11362 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7166
[mk-app] #11362 = #7166 #7166
[instance] 0x0 #11362
[attach-enode] #11362 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7168
[mk-app] #11362 = #7168 #7168
[instance] 0x0 #11362
[attach-enode] #11362 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7182
[mk-app] #11362 = #7182 #7182
[instance] 0x0 #11362
[attach-enode] #11362 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7185
[mk-app] #11362 = #7185 #7185
[instance] 0x0 #11362
[attach-enode] #11362 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7325
[mk-app] #11362 = #7325 #7325
[instance] 0x0 #11362
[attach-enode] #11362 0
[end-of-instance]
[mk-app] #11362 not #7425
[mk-app] #11363 not #7447
[mk-app] #11364 i$!skolem_user_u_tokenizer__lex__parse_usize_0!11 #33 #65 #64
[mk-app] #11365 has_type #11364 #184
[mk-app] #11366 not #11365
[mk-app] #11367 %I #11364
[mk-app] #11368 >= #11367 #334
[mk-app] #11369 * #363 #7427
[mk-app] #11370 + #11367 #11369
[mk-app] #11371 >= #11370 #334
[mk-app] #11372 not #11371
[mk-app] #11373 and #11368 #11372
[mk-app] #11374 not #11373
[mk-app] #11375 vstd!seq.Seq.index.? #120 #244 #6494 #11364
[mk-app] #11376 u_tokenizer!lex.is_digit.? #11375
[mk-app] #11377 or #11366 #11374 #11376
[mk-app] #11378 not #11377
[mk-app] #11379 and #7430 #11378
[mk-app] #11380 or #11363 #11379
[mk-app] #11381 or #11362 #7458
[mk-app] #11382 or #7425 #11380
[mk-app] #11383 and #11381 #11382
[mk-quant] #11384 internal_req__u_tokenizer!lex.parse_usize._definition 3 #7442 #11383
[attach-var-names] #11384 (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #7457
[mk-app] #11385 = #7457 #7457
[instance] 0x0 #11385
[attach-enode] #11385 0
[end-of-instance]
[mk-app] #11385 + #11369 #11367
[inst-discovered] theory-solving 0x0 arith# ; #11370
[mk-app] #11386 = #11370 #11385
[instance] 0x0 #11386
[attach-enode] #11386 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11386 * #363 #11367
[mk-app] #11387 + #7427 #11386
[mk-app] #11388 <= #11387 #334
[mk-app] #11389 >= #11385 #334
[inst-discovered] theory-solving 0x0 arith# ; #11389
[mk-app] #11390 = #11389 #11388
[instance] 0x0 #11390
[attach-enode] #11390 0
[end-of-instance]
[mk-app] #11385 not #11388
[mk-app] #11389 and #11368 #11385
[mk-app] #11390 not #11389
[mk-app] #11391 or #11366 #11390 #11376
[inst-discovered] theory-solving 0x0 basic# ; #11391
[mk-app] #11392 = #11391 #11391
[instance] 0x0 #11392
[attach-enode] #11392 0
[end-of-instance]
[mk-app] #11392 not #11391
[mk-app] #11393 and #7430 #11392
[mk-app] #11394 or #11363 #11393
[mk-app] #11395 or #7425 #11363 #11393
[mk-app] #11396 or #7425 #11394
[inst-discovered] theory-solving 0x0 basic# ; #11396
[mk-app] #11397 = #11396 #11395
[instance] 0x0 #11397
[attach-enode] #11397 0
[end-of-instance]
[mk-app] #11396 and #11381 #11395
[mk-quant] #11397 internal_req__u_tokenizer!lex.parse_usize._definition 3 #7442 #11396
[attach-var-names] #11397 (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11382 not #7644
[mk-app] #11383 i$!skolem_user_u_tokenizer__lst__visible_end_0!12 #33 #32 #63
[mk-app] #11384 has_type #11383 #184
[mk-app] #11394 not #11384
[mk-app] #11398 %I #11383
[mk-app] #11399 * #363 #186
[mk-app] #11400 + #11398 #11399
[mk-app] #11401 >= #11400 #334
[mk-app] #11402 + #11398 #3965
[mk-app] #11403 >= #11402 #334
[mk-app] #11404 not #11403
[mk-app] #11405 and #11401 #11404
[mk-app] #11406 not #11405
[mk-app] #11407 vstd!seq.Seq.index.? #120 #244 #63 #11383
[mk-app] #11408 %I #11407
[mk-app] #11409 = #11408 #6750
[mk-app] #11410 not #11409
[mk-app] #11411 or #11394 #11406 #11410
[mk-app] #11412 not #11411
[mk-app] #11413 or #4068 #3963 #7649 #11412
[mk-app] #11414 or #11382 #7668
[mk-app] #11415 or #7644 #11413
[mk-app] #11416 and #11414 #11415
[mk-quant] #11417 internal_u_tokenizer!lst.visible_end.?_definition 4 #7663 #11416
[attach-var-names] #11417 (|v!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #11418 or #7666 #11417
[inst-discovered] theory-solving 0x0 basic# ; #7672
[mk-app] #11419 = #7672 #7672
[instance] 0x0 #11419
[attach-enode] #11419 0
[end-of-instance]
[mk-app] #11419 + #11399 #11398
[inst-discovered] theory-solving 0x0 arith# ; #11400
[mk-app] #11420 = #11400 #11419
[instance] 0x0 #11420
[attach-enode] #11420 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11420 * #363 #11398
[mk-app] #11421 + #186 #11420
[mk-app] #11422 <= #11421 #334
[mk-app] #11423 >= #11419 #334
[inst-discovered] theory-solving 0x0 arith# ; #11423
[mk-app] #11424 = #11423 #11422
[instance] 0x0 #11424
[attach-enode] #11424 0
[end-of-instance]
[mk-app] #11423 + #3965 #11398
[inst-discovered] theory-solving 0x0 arith# ; #11402
[mk-app] #11424 = #11402 #11423
[instance] 0x0 #11424
[attach-enode] #11424 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11424 + #674 #11420
[mk-app] #11425 <= #11424 #334
[mk-app] #11426 >= #11423 #334
[inst-discovered] theory-solving 0x0 arith# ; #11426
[mk-app] #11427 = #11426 #11425
[instance] 0x0 #11427
[attach-enode] #11427 0
[end-of-instance]
[mk-app] #11423 not #11425
[mk-app] #11426 and #11422 #11423
[mk-app] #11427 not #11426
[mk-app] #11428 or #11394 #11427 #11410
[inst-discovered] theory-solving 0x0 basic# ; #11428
[mk-app] #11429 = #11428 #11428
[instance] 0x0 #11429
[attach-enode] #11429 0
[end-of-instance]
[mk-app] #11429 not #11428
[mk-app] #11430 or #4068 #3963 #7649 #11429
[inst-discovered] theory-solving 0x0 basic# ; #11430
[mk-app] #11431 = #11430 #11430
[instance] 0x0 #11431
[attach-enode] #11431 0
[end-of-instance]
[mk-app] #11431 or #7644 #4068 #3963 #7649 #11429
[mk-app] #11432 or #7644 #11430
[inst-discovered] theory-solving 0x0 basic# ; #11432
[mk-app] #11433 = #11432 #11431
[instance] 0x0 #11433
[attach-enode] #11433 0
[end-of-instance]
[mk-app] #11432 and #11414 #11431
[mk-quant] #11433 internal_u_tokenizer!lst.visible_end.?_definition 4 #7663 #11432
[attach-var-names] #11433 (|v!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #11430 or #7666 #11433
[mk-app] #11415 not #7678
[mk-app] #11416 v$!skolem_user_u_tokenizer__lst__tokens_span_0!13 #33 #32 #43
[mk-app] #11417 has_type #11416 #184
[mk-app] #11418 u_tokenizer!lst.visible_end.? #43 #32 #33 #11416
[mk-app] #11419 and #11417 #11418
[mk-app] #11434 or #264 #11419
[mk-app] #11435 and #736 #3963 #6791 #11434
[mk-app] #11436 not #736
[mk-app] #11437 not #6791
[mk-app] #11438 not #264
[mk-app] #11439 not #7680
[mk-quant] #11440 user_u_tokenizer__lst__tokens_span_0 1 #7663 #11439
[attach-var-names] #11440 (|v$| ; |Poly|)
[mk-app] #11441 and #11438 #11440
[mk-app] #11442 or #11436 #7667 #11437 #11441
[mk-app] #11443 or #11415 #11435
[mk-app] #11444 or #7678 #11442
[mk-app] #11445 and #11443 #11444
[mk-quant] #11446 internal_u_tokenizer!lst.tokens_span.?_definition 3 #7685 #11445
[attach-var-names] #11446 (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #11447 or #7688 #11446
[mk-app] #11448 or #7678 #11436 #7667 #11437 #11441
[inst-discovered] theory-solving 0x0 basic# ; #11448
[mk-app] #11449 = #11448 #11448
[instance] 0x0 #11449
[attach-enode] #11449 0
[end-of-instance]
[mk-app] #11449 and #11443 #11448
[mk-quant] #11450 internal_u_tokenizer!lst.tokens_span.?_definition 3 #7685 #11449
[attach-var-names] #11450 (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #11451 or #7688 #11450
[mk-app] #11442 not #7695
[mk-app] #11444 b$!skolem_user_u_tokenizer__lst__range_fine_0!14 #33 #32
[mk-app] #11445 a$!skolem_user_u_tokenizer__lst__range_fine_0!15 #33 #32
[mk-app] #11446 has_type #11445 #184
[mk-app] #11447 has_type #11444 #184
[mk-app] #11452 u_tokenizer!text.is_at.? #32 #2880 #11445
[mk-app] #11453 u_tokenizer!text.is_at.? #32 #2889 #11444
[mk-app] #11454 u_tokenizer!lst.tokens_span.? #32 #11445 #11444
[mk-app] #11455 and #11446 #11447 #11452 #11453 #11454
[mk-app] #11456 not #7714
[mk-quant] #11457 user_u_tokenizer__lst__range_fine_0 2 #7708 #11456
[attach-var-names] #11457 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #11458 or #11442 #11455
[mk-app] #11459 or #7695 #11457
[mk-app] #11460 and #11458 #11459
[mk-quant] #11461 internal_u_tokenizer!lst.range_fine.?_definition 2 #7711 #11460
[attach-var-names] #11461 (|r!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #11462 or #7718 #11461
[inst-discovered] theory-solving 0x0 basic# ; #8681
[mk-app] #11463 = #8681 #8681
[instance] 0x0 #11463
[attach-enode] #11463 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8829
[mk-app] #11463 = #8829 #8829
[instance] 0x0 #11463
[attach-enode] #11463 0
[end-of-instance]
[mk-app] #11463 not #8940
[mk-app] #11464 i$!skolem_user_u_tokenizer__lex__blank_between_0!16 #33 #32 #43
[mk-app] #11465 has_type #11464 #184
[mk-app] #11466 not #11465
[mk-app] #11467 %I #11464
[mk-app] #11468 + #11467 #3965
[mk-app] #11469 >= #11468 #334
[mk-app] #11470 + #11467 #11399
[mk-app] #11471 >= #11470 #334
[mk-app] #11472 not #11471
[mk-app] #11473 and #11469 #11472
[mk-app] #11474 not #11473
[mk-app] #11475 vstd!seq.Seq.index.? #120 #244 #43 #11464
[mk-app] #11476 u_tokenizer!text.is_blank.? #11475
[mk-app] #11477 or #11466 #11474 #11476
[mk-app] #11478 not #11477
[mk-app] #11479 or #7667 #11478
[mk-app] #11480 or #11463 #8950
[mk-app] #11481 or #8940 #11479
[mk-app] #11482 and #11480 #11481
[mk-quant] #11483 internal_u_tokenizer!lex.blank_between.?_definition 3 #8947 #11482
[attach-var-names] #11483 (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #11484 or #8957 #11483
[inst-discovered] theory-solving 0x0 basic# ; #8954
[mk-app] #11485 = #8954 #8954
[instance] 0x0 #11485
[attach-enode] #11485 0
[end-of-instance]
[mk-app] #11485 + #3965 #11467
[inst-discovered] theory-solving 0x0 arith# ; #11468
[mk-app] #11486 = #11468 #11485
[instance] 0x0 #11486
[attach-enode] #11486 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11486 * #363 #11467
[mk-app] #11487 + #674 #11486
[mk-app] #11488 <= #11487 #334
[mk-app] #11489 >= #11485 #334
[inst-discovered] theory-solving 0x0 arith# ; #11489
[mk-app] #11490 = #11489 #11488
[instance] 0x0 #11490
[attach-enode] #11490 0
[end-of-instance]
[mk-app] #11485 + #11399 #11467
[inst-discovered] theory-solving 0x0 arith# ; #11470
[mk-app] #11489 = #11470 #11485
[instance] 0x0 #11489
[attach-enode] #11489 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11489 + #186 #11486
[mk-app] #11490 <= #11489 #334
[mk-app] #11491 >= #11485 #334
[inst-discovered] theory-solving 0x0 arith# ; #11491
[mk-app] #11492 = #11491 #11490
[instance] 0x0 #11492
[attach-enode] #11492 0
[end-of-instance]
[mk-app] #11491 not #11490
[mk-app] #11492 and #11488 #11491
[mk-app] #11493 not #11492
[mk-app] #11494 or #11466 #11493 #11476
[inst-discovered] theory-solving 0x0 basic# ; #11494
[mk-app] #11495 = #11494 #11494
[instance] 0x0 #11495
[attach-enode] #11495 0
[end-of-instance]
[mk-app] #11495 not #11494
[mk-app] #11496 or #7667 #11495
[mk-app] #11497 or #8940 #7667 #11495
[mk-app] #11498 or #8940 #11496
[inst-discovered] theory-solving 0x0 basic# ; #11498
[mk-app] #11499 = #11498 #11497
[instance] 0x0 #11499
[attach-enode] #11499 0
[end-of-instance]
[mk-app] #11498 and #11480 #11497
[mk-quant] #11499 internal_u_tokenizer!lex.blank_between.?_definition 3 #8947 #11498
[attach-var-names] #11499 (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #11485 or #8957 #11499
[mk-app] #11481 not #9422
[mk-app] #11482 not #9425
[mk-app] #11483 i$!skolem_user_u_tokenizer__tokenizer__are_toks_0!17 #33 #32 #43
[mk-app] #11484 has_type #11483 #184
[mk-app] #11496 not #11484
[mk-app] #11500 %I #11483
[mk-app] #11501 >= #11500 #334
[mk-app] #11502 * #363 #9423
[mk-app] #11503 + #11500 #11502
[mk-app] #11504 >= #11503 #334
[mk-app] #11505 not #11504
[mk-app] #11506 and #11501 #11505
[mk-app] #11507 not #11506
[mk-app] #11508 vstd!seq.Seq.index.? #120 #1402 #32 #11483
[mk-app] #11509 vstd!seq.Seq.index.? #120 #1543 #33 #11483
[mk-app] #11510 u_tokenizer!tokenizer.is_tok.? #43 #11508 #11509
[mk-app] #11511 or #11496 #11507 #11510
[mk-app] #11512 not #11511
[mk-app] #11513 or #11482 #11512
[mk-app] #11514 or #11481 #9441
[mk-app] #11515 or #9422 #11513
[mk-app] #11516 and #11514 #11515
[mk-quant] #11517 internal_u_tokenizer!tokenizer.are_toks.?_definition 3 #9438 #11516
[attach-var-names] #11517 (|ks!| ; |Poly|) (|xs!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #11518 or #9452 #11517
[mk-app] #11519 + #11502 #11500
[inst-discovered] theory-solving 0x0 arith# ; #11503
[mk-app] #11520 = #11503 #11519
[instance] 0x0 #11520
[attach-enode] #11520 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11520 * #363 #11500
[mk-app] #11521 + #9423 #11520
[mk-app] #11522 <= #11521 #334
[mk-app] #11523 >= #11519 #334
[inst-discovered] theory-solving 0x0 arith# ; #11523
[mk-app] #11524 = #11523 #11522
[instance] 0x0 #11524
[attach-enode] #11524 0
[end-of-instance]
[mk-app] #11519 not #11522
[mk-app] #11523 and #11501 #11519
[mk-app] #11524 not #11523
[mk-app] #11525 or #11496 #11524 #11510
[mk-app] #11526 not #11525
[mk-app] #11527 or #11482 #11526
[mk-app] #11528 or #9422 #11482 #11526
[mk-app] #11529 or #9422 #11527
[inst-discovered] theory-solving 0x0 basic# ; #11529
[mk-app] #11530 = #11529 #11528
[instance] 0x0 #11530
[attach-enode] #11530 0
[end-of-instance]
[mk-app] #11529 and #11514 #11528
[mk-quant] #11530 internal_u_tokenizer!tokenizer.are_toks.?_definition 3 #9438 #11529
[attach-var-names] #11530 (|ks!| ; |Poly|) (|xs!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #11527 or #9452 #11530
[mk-app] #11515 not #10593
[mk-app] #11516 not #10622
[mk-app] #11517 not #10623
[mk-app] #11518 i$!skolem_user_u_tokenizer__lex__lemma_scan_0!18 #2101 #219 #10436
[mk-app] #11531 has_type #11518 #184
[mk-app] #11532 not #11531
[mk-app] #11533 %I #11518
[mk-app] #11534 + #11533 #562
[mk-app] #11535 >= #11534 #334
[mk-app] #11536 + #11533 #10620
[mk-app] #11537 >= #11536 #334
[mk-app] #11538 not #11537
[mk-app] #11539 and #11535 #11538
[mk-app] #11540 not #11539
[mk-app] #11541 vstd!seq.Seq.index.? #120 #244 #10439 #11518
[mk-app] #11542 u_tokenizer!lex.within.? #2102 #11541
[mk-app] #11543 or #11532 #11540 #11542
[mk-app] #11544 not #11543
[mk-app] #11545 not #10639
[mk-app] #11546 or #11516 #11517 #11544 #11545
[mk-app] #11547 or #11515 #10640
[mk-app] #11548 or #10593 #11546
[mk-app] #11549 and #11547 #11548
[mk-quant] #11550 internal_ens__u_tokenizer!lex.lemma_scan._definition 3 #10618 #11549
[attach-var-names] #11550 (|w!| ; |u_tokenizer!lex.Class.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[inst-discovered] theory-solving 0x0 basic# ; #10639
[mk-app] #11551 = #10639 #10639
[instance] 0x0 #11551
[attach-enode] #11551 0
[end-of-instance]
[mk-app] #11551 + #562 #11533
[inst-discovered] theory-solving 0x0 arith# ; #11534
[mk-app] #11552 = #11534 #11551
[instance] 0x0 #11552
[attach-enode] #11552 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11552 * #363 #11533
[mk-app] #11553 + #219 #11552
[mk-app] #11554 <= #11553 #334
[mk-app] #11555 >= #11551 #334
[inst-discovered] theory-solving 0x0 arith# ; #11555
[mk-app] #11556 = #11555 #11554
[instance] 0x0 #11556
[attach-enode] #11556 0
[end-of-instance]
[mk-app] #11551 + #10620 #11533
[inst-discovered] theory-solving 0x0 arith# ; #11536
[mk-app] #11555 = #11536 #11551
[instance] 0x0 #11555
[attach-enode] #11555 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #11555 + #10594 #11552
[mk-app] #11556 <= #11555 #334
[mk-app] #11557 >= #11551 #334
[inst-discovered] theory-solving 0x0 arith# ; #11557
[mk-app] #11558 = #11557 #11556
[instance] 0x0 #11558
[attach-enode] #11558 0
[end-of-instance]
[mk-app] #11551 not #11556
[mk-app] #11557 and #11554 #11551
[mk-app] #11558 not #11557
[mk-app] #11559 or #11532 #11558 #11542
[mk-app] #11560 not #11559
[mk-app] #11561 or #11516 #11517 #11560 #11545
[inst-discovered] theory-solving 0x0 basic# ; #11561
[mk-app] #11562 = #11561 #11561
[instance] 0x0 #11562
[attach-enode] #11562 0
[end-of-instance]
[mk-app] #11562 or #10593 #11516 #11517 #11560 #11545
[mk-app] #11563 or #10593 #11561
[inst-discovered] theory-solving 0x0 basic# ; #11563
[mk-app] #11564 = #11563 #11562
[instance] 0x0 #11564
[attach-enode] #11564 0
[end-of-instance]
[mk-app] #11563 and #11547 #11562
[mk-quant] #11564 internal_ens__u_tokenizer!lex.lemma_scan._definition 3 #10618 #11563
[attach-var-names] #11564 (|w!| ; |u_tokenizer!lex.Class.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[inst-discovered] theory-solving 0x0 basic# ; #10904
[mk-app] #11548 = #10904 #10904
[instance] 0x0 #11548
[attach-enode] #11548 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10910
[mk-app] #11548 = #10910 #10910
[instance] 0x0 #11548
[attach-enode] #11548 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10958
[mk-app] #11548 = #10958 #10958
[instance] 0x0 #11548
[attach-enode] #11548 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10959
[mk-app] #11548 = #10959 #10959
[instance] 0x0 #11548
[attach-enode] #11548 0
[end-of-instance]
[mk-app] #5997 not #67
[mk-app] #11247 or #5997 #1726
[mk-app] #11248 not #11247
[inst-discovered] theory-solving 0x0 basic# ; #69
[mk-app] #11249 = #69 #11248
[instance] 0x0 #11249
[attach-enode] #11249 0
[end-of-instance]
[mk-app] #11249 not #11248
[inst-discovered] theory-solving 0x0 basic# ; #11249
[mk-app] #11250 = #11249 #11247
[instance] 0x0 #11250
[attach-enode] #11250 0
[end-of-instance]
[mk-app] #11249 or #5997 #1726 #71
[mk-app] #11250 or #11247 #71
[inst-discovered] theory-solving 0x0 basic# ; #11250
[mk-app] #11251 = #11250 #11249
[instance] 0x0 #11251
[attach-enode] #11251 0
[end-of-instance]
[mk-quant] #11250 prelude_mut_ref_update_has_type 4 #73 #11249
[attach-var-names] #11250 (|arg| ; |Poly|) (|t| ; |Type|) (|d| ; |Dcr|) (|m| ; |Poly|)
[mk-app] #11247 not #145
[mk-app] #11248 not #153
[mk-app] #11251 or #11247 #11248
[mk-app] #11256 not #11251
[inst-discovered] theory-solving 0x0 basic# ; #154
[mk-app] #11257 = #154 #11256
[instance] 0x0 #11257
[attach-enode] #11257 0
[end-of-instance]
[mk-quant] #11257 prelude_as_type 2 #150 #11256
[attach-var-names] #11257 (|t| ; |Type|) (|x| ; |Poly|)
[mk-app] #11214 not #345
[mk-app] #11215 not #344
[mk-app] #11216 or #11214 #11215
[mk-app] #11217 not #11216
[inst-discovered] theory-solving 0x0 basic# ; #347
[mk-app] #11218 = #347 #11217
[instance] 0x0 #11218
[attach-enode] #11218 0
[end-of-instance]
[mk-quant] #11218 prelude_nat_clip 1 #341 #11217
[attach-var-names] #11218 (|i| ; |Int|)
[mk-app] #11219 or #343 #370
[mk-app] #11224 not #11219
[inst-discovered] theory-solving 0x0 basic# ; #373
[mk-app] #11225 = #373 #11224
[instance] 0x0 #11225
[attach-enode] #11225 0
[end-of-instance]
[mk-app] #11225 not #11224
[inst-discovered] theory-solving 0x0 basic# ; #11225
[mk-app] #11226 = #11225 #11219
[instance] 0x0 #11226
[attach-enode] #11226 0
[end-of-instance]
[mk-app] #11225 or #343 #370 #355
[mk-app] #11226 or #11219 #355
[inst-discovered] theory-solving 0x0 basic# ; #11226
[mk-app] #11151 = #11226 #11225
[instance] 0x0 #11151
[attach-enode] #11151 0
[end-of-instance]
[mk-app] #11226 not #362
[mk-app] #11151 not #11225
[mk-app] #11152 or #11226 #364 #11151
[mk-app] #11153 not #11152
[mk-app] #11154 and #362 #365 #11225
[inst-discovered] theory-solving 0x0 basic# ; #11154
[mk-app] #11155 = #11154 #11153
[instance] 0x0 #11155
[attach-enode] #11155 0
[end-of-instance]
[mk-quant] #11154 prelude_u_clip 2 #358 #11153
[attach-var-names] #11154 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #11219 not #396
[mk-app] #11224 or #11219 #401
[mk-app] #11155 not #11224
[inst-discovered] theory-solving 0x0 basic# ; #404
[mk-app] #11159 = #404 #11155
[instance] 0x0 #11159
[attach-enode] #11159 0
[end-of-instance]
[mk-app] #11159 not #11155
[inst-discovered] theory-solving 0x0 basic# ; #11159
[mk-app] #11160 = #11159 #11224
[instance] 0x0 #11160
[attach-enode] #11160 0
[end-of-instance]
[mk-app] #11159 or #11219 #401 #382
[mk-app] #11160 or #11224 #382
[inst-discovered] theory-solving 0x0 basic# ; #11160
[mk-app] #11161 = #11160 #11159
[instance] 0x0 #11161
[attach-enode] #11161 0
[end-of-instance]
[mk-app] #11160 not #389
[mk-app] #11161 not #11159
[mk-app] #7715 or #11160 #392 #11161
[mk-app] #11282 not #7715
[mk-app] #11283 and #389 #395 #11159
[inst-discovered] theory-solving 0x0 basic# ; #11283
[mk-app] #11284 = #11283 #11282
[instance] 0x0 #11284
[attach-enode] #11284 0
[end-of-instance]
[mk-quant] #11283 prelude_i_clip 2 #385 #11282
[attach-var-names] #11283 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #11224 not #428
[mk-app] #11155 not #391
[mk-app] #11284 or #11224 #11155
[mk-app] #11285 not #11284
[inst-discovered] theory-solving 0x0 basic# ; #427
[mk-app] #11286 = #427 #11285
[instance] 0x0 #11286
[attach-enode] #11286 0
[end-of-instance]
[mk-app] #11286 not #431
[mk-app] #11287 not #413
[mk-app] #11291 or #11286 #11287
[mk-app] #11292 not #11291
[inst-discovered] theory-solving 0x0 basic# ; #429
[mk-app] #11293 = #429 #11292
[instance] 0x0 #11293
[attach-enode] #11293 0
[end-of-instance]
[mk-app] #11293 or #11285 #11292
[mk-app] #11294 not #416
[mk-app] #11295 or #343 #11294
[mk-app] #11468 not #11295
[inst-discovered] theory-solving 0x0 basic# ; #432
[mk-app] #11469 = #432 #11468
[instance] 0x0 #11469
[attach-enode] #11469 0
[end-of-instance]
[mk-app] #11469 not #435
[mk-app] #11399 not #419
[mk-app] #11470 or #11469 #11399
[mk-app] #11471 not #11470
[inst-discovered] theory-solving 0x0 basic# ; #433
[mk-app] #11472 = #433 #11471
[instance] 0x0 #11472
[attach-enode] #11472 0
[end-of-instance]
[mk-app] #11472 or #11468 #11471
[mk-app] #11473 not #11472
[mk-app] #11474 or #11473 #422
[mk-app] #11477 not #11293
[mk-app] #11478 not #11474
[mk-app] #11479 or #11477 #11478
[mk-app] #11534 not #11479
[mk-app] #11535 and #11293 #11474
[inst-discovered] theory-solving 0x0 basic# ; #11535
[mk-app] #11536 = #11535 #11534
[instance] 0x0 #11536
[attach-enode] #11536 0
[end-of-instance]
[mk-quant] #11535 prelude_char_clip 1 #425 #11534
[attach-var-names] #11535 (|i| ; |Int|)
[mk-app] #11536 or #343 #370
[mk-app] #11537 not #11536
[inst-discovered] theory-solving 0x0 basic# ; #373
[mk-app] #11538 = #373 #11537
[instance] 0x0 #11538
[attach-enode] #11538 0
[end-of-instance]
[mk-app] #11538 = #11536 #440
[mk-app] #11539 not #11538
[mk-app] #11540 = #440 #11537
[inst-discovered] theory-solving 0x0 basic# ; #11540
[mk-app] #11543 = #11540 #11539
[instance] 0x0 #11543
[attach-enode] #11543 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11539
[mk-app] #11540 = #11539 #11539
[instance] 0x0 #11540
[attach-enode] #11540 0
[end-of-instance]
[mk-quant] #11540 prelude_u_inv 2 #442 #11539
[attach-var-names] #11540 (|i| ; |Int|) (|bits| ; |Int|)
[mk-app] #11537 or #11219 #401
[mk-app] #11543 not #11537
[inst-discovered] theory-solving 0x0 basic# ; #404
[mk-app] #11544 = #404 #11543
[instance] 0x0 #11544
[attach-enode] #11544 0
[end-of-instance]
[mk-app] #11544 = #11537 #444
[mk-app] #11546 not #11544
[mk-app] #11182 = #444 #11543
[inst-discovered] theory-solving 0x0 basic# ; #11182
[mk-app] #11183 = #11182 #11546
[instance] 0x0 #11183
[attach-enode] #11183 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11546
[mk-app] #11182 = #11546 #11546
[instance] 0x0 #11182
[attach-enode] #11182 0
[end-of-instance]
[mk-quant] #11182 prelude_i_inv 2 #448 #11546
[attach-var-names] #11182 (|i| ; |Int|) (|bits| ; |Int|)
[inst-discovered] theory-solving 0x0 basic# ; #432
[mk-app] #11543 = #432 #11468
[instance] 0x0 #11543
[attach-enode] #11543 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #433
[mk-app] #11543 = #433 #11471
[instance] 0x0 #11543
[attach-enode] #11543 0
[end-of-instance]
[mk-app] #11543 = #450 #11472
[mk-quant] #11183 prelude_char_inv 1 #454 #11543
[attach-var-names] #11183 (|i| ; |Int|)
[inst-discovered] theory-solving 0x0 basic# ; #524
[mk-app] #11184 = #524 #524
[instance] 0x0 #11184
[attach-enode] #11184 0
[end-of-instance]
[mk-app] #11184 not #635
[mk-app] #11185 or #11184 #343
[mk-app] #11186 not #11185
[inst-discovered] theory-solving 0x0 basic# ; #636
[mk-app] #11190 = #636 #11186
[instance] 0x0 #11190
[attach-enode] #11190 0
[end-of-instance]
[mk-app] #11190 not #11186
[inst-discovered] theory-solving 0x0 basic# ; #11190
[mk-app] #11191 = #11190 #11185
[instance] 0x0 #11191
[attach-enode] #11191 0
[end-of-instance]
[mk-app] #11186 or #11184 #343 #638
[mk-app] #11190 or #11185 #638
[inst-discovered] theory-solving 0x0 basic# ; #11190
[mk-app] #11191 = #11190 #11186
[instance] 0x0 #11191
[attach-enode] #11191 0
[end-of-instance]
[mk-quant] #11185 prelude_mul_nats 2 #566 #11186
[attach-var-names] #11185 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #11190 or #11184 #648
[mk-app] #11191 not #11190
[inst-discovered] theory-solving 0x0 basic# ; #650
[mk-app] #11192 = #650 #11191
[instance] 0x0 #11192
[attach-enode] #11192 0
[end-of-instance]
[mk-app] #11192 not #11191
[inst-discovered] theory-solving 0x0 basic# ; #11192
[mk-app] #11400 = #11192 #11190
[instance] 0x0 #11400
[attach-enode] #11400 0
[end-of-instance]
[mk-app] #11191 not #652
[mk-app] #11192 not #651
[mk-app] #11400 or #11191 #11192
[mk-app] #11401 not #11400
[inst-discovered] theory-solving 0x0 basic# ; #655
[mk-app] #11402 = #655 #11401
[instance] 0x0 #11402
[attach-enode] #11402 0
[end-of-instance]
[mk-app] #11402 or #11184 #648 #11401
[mk-app] #11403 or #11190 #11401
[inst-discovered] theory-solving 0x0 basic# ; #11403
[mk-app] #11404 = #11403 #11402
[instance] 0x0 #11404
[attach-enode] #11404 0
[end-of-instance]
[mk-quant] #11403 prelude_div_unsigned_in_bounds 2 #576 #11402
[attach-var-names] #11403 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #11190 or #11184 #648
[mk-app] #11404 not #11190
[inst-discovered] theory-solving 0x0 basic# ; #650
[mk-app] #11405 = #650 #11404
[instance] 0x0 #11405
[attach-enode] #11405 0
[end-of-instance]
[mk-app] #11405 not #11404
[inst-discovered] theory-solving 0x0 basic# ; #11405
[mk-app] #11406 = #11405 #11190
[instance] 0x0 #11406
[attach-enode] #11406 0
[end-of-instance]
[mk-app] #11404 not #665
[mk-app] #11405 or #11404 #669
[mk-app] #11406 not #11405
[inst-discovered] theory-solving 0x0 basic# ; #671
[mk-app] #11411 = #671 #11406
[instance] 0x0 #11411
[attach-enode] #11411 0
[end-of-instance]
[mk-app] #11411 or #11184 #648 #11406
[mk-app] #11412 or #11190 #11406
[inst-discovered] theory-solving 0x0 basic# ; #11412
[mk-app] #11413 = #11412 #11411
[instance] 0x0 #11413
[attach-enode] #11413 0
[end-of-instance]
[mk-quant] #11412 prelude_mod_unsigned_in_bounds 2 #585 #11411
[attach-var-names] #11412 (|y| ; |Int|) (|x| ; |Int|)
[mk-app] #11190 not #666
[mk-app] #11413 not #675
[mk-app] #11369 or #11190 #11413
[mk-app] #11370 not #11369
[inst-discovered] theory-solving 0x0 basic# ; #676
[mk-app] #11371 = #676 #11370
[instance] 0x0 #11371
[attach-enode] #11371 0
[end-of-instance]
[mk-app] #11371 not #11370
[inst-discovered] theory-solving 0x0 basic# ; #11371
[mk-app] #11372 = #11371 #11369
[instance] 0x0 #11372
[attach-enode] #11372 0
[end-of-instance]
[mk-app] #11371 or #11190 #11413 #678
[mk-app] #11372 or #11369 #678
[inst-discovered] theory-solving 0x0 basic# ; #11372
[mk-app] #11373 = #11372 #11371
[instance] 0x0 #11373
[attach-enode] #11373 0
[end-of-instance]
[mk-quant] #11372 prelude_bit_xor_u_inv 3 #681 #11371
[attach-var-names] #11372 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #11369 not #686
[mk-app] #11370 not #687
[mk-app] #11373 or #11369 #11370
[mk-app] #11374 not #11373
[inst-discovered] theory-solving 0x0 basic# ; #688
[mk-app] #11377 = #688 #11374
[instance] 0x0 #11377
[attach-enode] #11377 0
[end-of-instance]
[mk-app] #11377 not #11374
[inst-discovered] theory-solving 0x0 basic# ; #11377
[mk-app] #11378 = #11377 #11373
[instance] 0x0 #11378
[attach-enode] #11378 0
[end-of-instance]
[mk-app] #11377 or #11369 #11370 #689
[mk-app] #11378 or #11373 #689
[inst-discovered] theory-solving 0x0 basic# ; #11378
[mk-app] #11379 = #11378 #11377
[instance] 0x0 #11379
[attach-enode] #11379 0
[end-of-instance]
[mk-quant] #11378 prelude_bit_xor_i_inv 3 #692 #11377
[attach-var-names] #11378 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #11373 or #11190 #11413
[mk-app] #11374 not #11373
[inst-discovered] theory-solving 0x0 basic# ; #676
[mk-app] #11379 = #676 #11374
[instance] 0x0 #11379
[attach-enode] #11379 0
[end-of-instance]
[mk-app] #11379 not #11374
[inst-discovered] theory-solving 0x0 basic# ; #11379
[mk-app] #11380 = #11379 #11373
[instance] 0x0 #11380
[attach-enode] #11380 0
[end-of-instance]
[mk-app] #11379 or #11190 #11413 #698
[mk-app] #11380 or #11373 #698
[inst-discovered] theory-solving 0x0 basic# ; #11380
[mk-app] #11502 = #11380 #11379
[instance] 0x0 #11502
[attach-enode] #11502 0
[end-of-instance]
[mk-quant] #11380 prelude_bit_or_u_inv 3 #701 #11379
[attach-var-names] #11380 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #11373 or #11369 #11370
[mk-app] #11374 not #11373
[inst-discovered] theory-solving 0x0 basic# ; #688
[mk-app] #11502 = #688 #11374
[instance] 0x0 #11502
[attach-enode] #11502 0
[end-of-instance]
[mk-app] #11502 not #11374
[inst-discovered] theory-solving 0x0 basic# ; #11502
[mk-app] #11503 = #11502 #11373
[instance] 0x0 #11503
[attach-enode] #11503 0
[end-of-instance]
[mk-app] #11502 or #11369 #11370 #705
[mk-app] #11503 or #11373 #705
[inst-discovered] theory-solving 0x0 basic# ; #11503
[mk-app] #11504 = #11503 #11502
[instance] 0x0 #11504
[attach-enode] #11504 0
[end-of-instance]
[mk-quant] #11503 prelude_bit_or_i_inv 3 #708 #11502
[attach-var-names] #11503 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #11373 or #11190 #11413
[mk-app] #11374 not #11373
[inst-discovered] theory-solving 0x0 basic# ; #676
[mk-app] #11504 = #676 #11374
[instance] 0x0 #11504
[attach-enode] #11504 0
[end-of-instance]
[mk-app] #11504 not #11374
[inst-discovered] theory-solving 0x0 basic# ; #11504
[mk-app] #11505 = #11504 #11373
[instance] 0x0 #11505
[attach-enode] #11505 0
[end-of-instance]
[mk-app] #11504 or #11190 #11413 #713
[mk-app] #11505 or #11373 #713
[inst-discovered] theory-solving 0x0 basic# ; #11505
[mk-app] #11506 = #11505 #11504
[instance] 0x0 #11506
[attach-enode] #11506 0
[end-of-instance]
[mk-quant] #11505 prelude_bit_and_u_inv 3 #716 #11504
[attach-var-names] #11505 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #11373 or #11369 #11370
[mk-app] #11374 not #11373
[inst-discovered] theory-solving 0x0 basic# ; #688
[mk-app] #11506 = #688 #11374
[instance] 0x0 #11506
[attach-enode] #11506 0
[end-of-instance]
[mk-app] #11506 not #11374
[inst-discovered] theory-solving 0x0 basic# ; #11506
[mk-app] #11507 = #11506 #11373
[instance] 0x0 #11507
[attach-enode] #11507 0
[end-of-instance]
[mk-app] #11506 or #11369 #11370 #720
[mk-app] #11507 or #11373 #720
[inst-discovered] theory-solving 0x0 basic# ; #11507
[mk-app] #11511 = #11507 #11506
[instance] 0x0 #11511
[attach-enode] #11511 0
[end-of-instance]
[mk-quant] #11507 prelude_bit_and_i_inv 3 #723 #11506
[attach-var-names] #11507 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #11373 or #11190 #11436
[mk-app] #11374 not #11373
[inst-discovered] theory-solving 0x0 basic# ; #735
[mk-app] #11511 = #735 #11374
[instance] 0x0 #11511
[attach-enode] #11511 0
[end-of-instance]
[mk-app] #11511 not #11374
[inst-discovered] theory-solving 0x0 basic# ; #11511
[mk-app] #11512 = #11511 #11373
[instance] 0x0 #11512
[attach-enode] #11512 0
[end-of-instance]
[mk-app] #11374 or #11190 #11436 #730
[mk-app] #11511 or #11373 #730
[inst-discovered] theory-solving 0x0 basic# ; #11511
[mk-app] #11512 = #11511 #11374
[instance] 0x0 #11512
[attach-enode] #11512 0
[end-of-instance]
[mk-quant] #11373 prelude_bit_shr_u_inv 3 #733 #11374
[attach-var-names] #11373 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #11511 or #11369 #11436
[mk-app] #11512 not #11511
[inst-discovered] theory-solving 0x0 basic# ; #746
[mk-app] #11513 = #746 #11512
[instance] 0x0 #11513
[attach-enode] #11513 0
[end-of-instance]
[mk-app] #11513 not #11512
[inst-discovered] theory-solving 0x0 basic# ; #11513
[mk-app] #11324 = #11513 #11511
[instance] 0x0 #11324
[attach-enode] #11324 0
[end-of-instance]
[mk-app] #11512 or #11369 #11436 #741
[mk-app] #11513 or #11511 #741
[inst-discovered] theory-solving 0x0 basic# ; #11513
[mk-app] #11324 = #11513 #11512
[instance] 0x0 #11324
[attach-enode] #11324 0
[end-of-instance]
[mk-quant] #11511 prelude_bit_shr_i_inv 3 #744 #11512
[attach-var-names] #11511 (|bits| ; |Int|) (|y| ; |Poly|) (|x| ; |Poly|)
[mk-app] #11513 not #763
[mk-app] #11324 not #128
[mk-app] #1292 or #11513 #11324
[mk-app] #1293 not #1292
[inst-discovered] theory-solving 0x0 basic# ; #764
[mk-app] #1294 = #764 #1293
[instance] 0x0 #1294
[attach-enode] #1294 0
[end-of-instance]
[mk-app] #1294 or #762 #1293
[inst-discovered] theory-solving 0x0 basic# ; #1294
[mk-app] #6820 = #1294 #1294
[instance] 0x0 #6820
[attach-enode] #6820 0
[end-of-instance]
[mk-app] #6820 = #759 #1294
[mk-quant] #6821 prelude_check_decrease_height 3 #767 #6820
[attach-var-names] #6821 (|otherwise| ; |Bool|) (|prev| ; |Poly|) (|cur| ; |Poly|)
[mk-app] #1242 or #11184 #781
[mk-app] #1243 not #1242
[inst-discovered] theory-solving 0x0 basic# ; #783
[mk-app] #1244 = #783 #1243
[instance] 0x0 #1244
[attach-enode] #1244 0
[end-of-instance]
[mk-app] #1244 = #1242 #772
[mk-app] #11124 not #1244
[mk-app] #11127 = #772 #1243
[inst-discovered] theory-solving 0x0 basic# ; #11127
[mk-app] #11128 = #11127 #11124
[instance] 0x0 #11128
[attach-enode] #11128 0
[end-of-instance]
[mk-app] #1243 not #1242
[inst-discovered] theory-solving 0x0 basic# ; #11124
[mk-app] #1243 = #11124 #11124
[instance] 0x0 #1243
[attach-enode] #1243 0
[end-of-instance]
[mk-quant] #1243 prelude_check_decrease_int_height 2 #776 #11124
[attach-var-names] #1243 (|prev| ; |Int|) (|cur| ; |Int|)
[mk-app] #11127 not #787
[mk-app] #11128 or #11127 #788
[mk-app] #11129 not #11128
[inst-discovered] theory-solving 0x0 basic# ; #790
[mk-app] #11130 = #790 #11129
[instance] 0x0 #11130
[attach-enode] #11130 0
[end-of-instance]
[mk-app] #11130 = #11128 #786
[mk-app] #11133 not #11130
[mk-app] #2834 = #786 #11129
[inst-discovered] theory-solving 0x0 basic# ; #2834
[mk-app] #2831 = #2834 #11133
[instance] 0x0 #2831
[attach-enode] #2831 0
[end-of-instance]
[mk-app] #11129 not #11128
[inst-discovered] theory-solving 0x0 basic# ; #11133
[mk-app] #11129 = #11133 #11133
[instance] 0x0 #11129
[attach-enode] #11129 0
[end-of-instance]
[mk-quant] #11129 prelude_height_lt 2 #792 #11133
[attach-var-names] #11129 (|y| ; |Height|) (|x| ; |Height|)
[mk-app] #2834 not #1038
[mk-app] #2831 not #1039
[mk-app] #2832 not #1040
[mk-app] #2835 not #1041
[mk-app] #2836 not #1042
[mk-app] #2837 not #1043
[mk-app] #2838 or #2834 #2831 #2832 #2835 #2836 #2837
[mk-app] #10641 not #2838
[inst-discovered] theory-solving 0x0 basic# ; #1044
[mk-app] #10642 = #1044 #10641
[instance] 0x0 #10642
[attach-enode] #10642 0
[end-of-instance]
[mk-app] #10642 or #1046 #10641
[mk-app] #9442 not #1049
[mk-app] #9451 not #1050
[mk-app] #9453 or #9442 #9451
[mk-app] #8955 not #9453
[inst-discovered] theory-solving 0x0 basic# ; #1051
[mk-app] #8956 = #1051 #8955
[instance] 0x0 #8956
[attach-enode] #8956 0
[end-of-instance]
[mk-app] #8956 or #1053 #8955
[mk-app] #8958 not #1056
[mk-app] #7716 not #1057
[mk-app] #7717 not #1058
[mk-app] #7719 not #1059
[mk-app] #7689 not #1060
[mk-app] #7690 not #1061
[mk-app] #7691 not #1062
[mk-app] #7692 not #1063
[mk-app] #7673 not #1064
[mk-app] #7674 not #1065
[mk-app] #7675 not #1066
[mk-app] #7459 not #1067
[mk-app] #7460 not #1068
[mk-app] #6822 not #1069
[mk-app] #6823 not #1070
[mk-app] #6824 not #1071
[mk-app] #6807 not #1072
[mk-app] #5998 not #1073
[mk-app] #5999 not #1074
[mk-app] #6000 not #1075
[mk-app] #5886 not #1076
[mk-app] #5887 not #1077
[mk-app] #5889 not #1078
[mk-app] #4845 not #1079
[mk-app] #4816 not #1080
[mk-app] #4817 or #8958 #7716 #7717 #7719 #7689 #7690 #7691 #7692 #7673 #7674 #7675 #7459 #7460 #6822 #6823 #6824 #6807 #5998 #5999 #6000 #5886 #5887 #5889 #4845 #4816
[mk-app] #4820 not #4817
[inst-discovered] theory-solving 0x0 basic# ; #1081
[mk-app] #4618 = #1081 #4820
[instance] 0x0 #4618
[attach-enode] #4618 0
[end-of-instance]
[mk-app] #4618 or #1083 #4820
[inst-discovered] theory-solving 0x0 basic# ; #1089
[mk-app] #4629 = #1089 #1089
[instance] 0x0 #4629
[attach-enode] #4629 0
[end-of-instance]
[mk-app] #4629 not #1091
[mk-app] #4627 not #1092
[mk-app] #4631 or #4629 #4627
[mk-app] #4181 not #4631
[inst-discovered] theory-solving 0x0 basic# ; #1093
[mk-app] #4185 = #1093 #4181
[instance] 0x0 #4185
[attach-enode] #4185 0
[end-of-instance]
[mk-app] #4185 or #1095 #4181
[mk-app] #4184 not #1098
[mk-app] #4187 not #1099
[mk-app] #4157 not #1100
[mk-app] #4164 not #1101
[mk-app] #4162 not #1102
[mk-app] #4166 not #1103
[mk-app] #2829 not #1104
[mk-app] #2830 not #1105
[mk-app] #2839 not #1106
[mk-app] #1295 not #1107
[mk-app] #1296 not #1108
[mk-app] #1297 not #1109
[mk-app] #1298 not #1110
[mk-app] #1245 not #1111
[mk-app] #1246 not #1112
[mk-app] #1247 not #1113
[mk-app] #11548 or #4184 #4187 #4157 #4164 #4162 #4166 #2829 #2830 #2839 #1295 #1296 #1297 #1298 #1245 #1246 #1247
[mk-app] #11549 not #11548
[inst-discovered] theory-solving 0x0 basic# ; #1114
[mk-app] #11550 = #1114 #11549
[instance] 0x0 #11550
[attach-enode] #11550 0
[end-of-instance]
[mk-app] #11550 or #1116 #11549
[mk-app] #11561 not #1119
[mk-app] #11565 not #1120
[mk-app] #11566 not #1121
[mk-app] #11567 not #1122
[mk-app] #11568 or #11561 #11565 #11566 #11567
[mk-app] #11569 not #11568
[inst-discovered] theory-solving 0x0 basic# ; #1123
[mk-app] #11570 = #1123 #11569
[instance] 0x0 #11570
[attach-enode] #11570 0
[end-of-instance]
[mk-app] #11570 or #1125 #11569
[mk-app] #11571 not #1128
[mk-app] #11572 not #1129
[mk-app] #11573 not #1130
[mk-app] #11574 not #1131
[mk-app] #11575 not #1132
[mk-app] #11576 or #11571 #11572 #11573 #11574 #11575
[mk-app] #11577 not #11576
[inst-discovered] theory-solving 0x0 basic# ; #1133
[mk-app] #11578 = #1133 #11577
[instance] 0x0 #11578
[attach-enode] #11578 0
[end-of-instance]
[mk-app] #11578 or #1135 #11577
[mk-app] #11579 not #1138
[mk-app] #11580 not #1139
[mk-app] #11581 or #11579 #11580
[mk-app] #11582 not #11581
[inst-discovered] theory-solving 0x0 basic# ; #1140
[mk-app] #11583 = #1140 #11582
[instance] 0x0 #11583
[attach-enode] #11583 0
[end-of-instance]
[mk-app] #11583 or #1142 #11582
[mk-app] #11584 not #1145
[mk-app] #11585 not #1146
[mk-app] #11586 not #1147
[mk-app] #11587 not #1148
[mk-app] #11588 or #11584 #11585 #11586 #11587
[mk-app] #11589 not #11588
[inst-discovered] theory-solving 0x0 basic# ; #1149
[mk-app] #11590 = #1149 #11589
[instance] 0x0 #11590
[attach-enode] #11590 0
[end-of-instance]
[mk-app] #11590 or #1151 #11589
[mk-app] #11591 not #1154
[mk-app] #11592 not #1155
[mk-app] #11593 not #1156
[mk-app] #11594 or #11591 #11592 #11593
[mk-app] #11595 not #11594
[inst-discovered] theory-solving 0x0 basic# ; #1157
[mk-app] #11596 = #1157 #11595
[instance] 0x0 #11596
[attach-enode] #11596 0
[end-of-instance]
[mk-app] #11596 or #1159 #11595
[mk-app] #11597 not #1251
[mk-app] #11598 not #1252
[mk-app] #11599 or #11597 #11598
[mk-app] #11600 not #11599
[inst-discovered] theory-solving 0x0 basic# ; #1253
[mk-app] #11601 = #1253 #11600
[instance] 0x0 #11601
[attach-enode] #11601 0
[end-of-instance]
[mk-app] #11601 not #11600
[inst-discovered] theory-solving 0x0 basic# ; #11601
[mk-app] #11602 = #11601 #11599
[instance] 0x0 #11602
[attach-enode] #11602 0
[end-of-instance]
[mk-app] #11601 or #11597 #11598 #1255
[mk-app] #11602 or #11599 #1255
[inst-discovered] theory-solving 0x0 basic# ; #11602
[mk-app] #11603 = #11602 #11601
[instance] 0x0 #11603
[attach-enode] #11603 0
[end-of-instance]
[mk-quant] #11602 internal_crate__fun__1_apply_definition 6 #1257 #11601
[attach-var-names] #11602 (|x| ; |%%Function%%|) (|T%0| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #11599 or #11597 #11598
[mk-app] #11600 not #11599
[inst-discovered] theory-solving 0x0 basic# ; #1253
[mk-app] #11603 = #1253 #11600
[instance] 0x0 #11603
[attach-enode] #11603 0
[end-of-instance]
[mk-app] #11603 not #11600
[inst-discovered] theory-solving 0x0 basic# ; #11603
[mk-app] #11604 = #11603 #11599
[instance] 0x0 #11604
[attach-enode] #11604 0
[end-of-instance]
[mk-app] #11603 or #11597 #11598 #1265
[mk-app] #11604 or #11599 #1265
[inst-discovered] theory-solving 0x0 basic# ; #11604
[mk-app] #11605 = #11604 #11603
[instance] 0x0 #11605
[attach-enode] #11605 0
[end-of-instance]
[mk-quant] #11604 internal_crate__fun__1_height_apply_definition 6 #1267 #11603
[attach-var-names] #11604 (|x| ; |%%Function%%|) (|T%0| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #11125
[mk-app] #11599 = #11125 #11125
[instance] 0x0 #11599
[attach-enode] #11599 0
[end-of-instance]
[mk-app] #11599 not #1756
[mk-app] #11600 not #1757
[mk-app] #11605 not #1766
[mk-app] #11606 not #1767
[mk-app] #11607 or #11599 #11600 #11605 #11606
[mk-app] #11608 not #11607
[inst-discovered] theory-solving 0x0 basic# ; #1768
[mk-app] #11609 = #1768 #11608
[instance] 0x0 #11609
[attach-enode] #11609 0
[end-of-instance]
[mk-app] #11609 not #11608
[inst-discovered] theory-solving 0x0 basic# ; #11609
[mk-app] #11610 = #11609 #11607
[instance] 0x0 #11610
[attach-enode] #11610 0
[end-of-instance]
[mk-app] #11608 or #11599 #11600 #11605 #11606 #1762
[mk-app] #11609 or #11607 #1762
[inst-discovered] theory-solving 0x0 basic# ; #11609
[mk-app] #11610 = #11609 #11608
[instance] 0x0 #11610
[attach-enode] #11610 0
[end-of-instance]
[mk-quant] #11607 internal_core!option.Option./None_ext_equal_definition 5 #1764 #11608
[attach-var-names] #11607 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #11609 not #1780
[mk-app] #11610 not #1781
[mk-app] #11611 not #1776
[mk-app] #11612 or #11599 #11600 #11609 #11610 #11611
[mk-app] #11613 not #11612
[inst-discovered] theory-solving 0x0 basic# ; #1782
[mk-app] #11614 = #1782 #11613
[instance] 0x0 #11614
[attach-enode] #11614 0
[end-of-instance]
[mk-app] #11614 not #11613
[inst-discovered] theory-solving 0x0 basic# ; #11614
[mk-app] #11615 = #11614 #11612
[instance] 0x0 #11615
[attach-enode] #11615 0
[end-of-instance]
[mk-app] #11613 or #11599 #11600 #11609 #11610 #11611 #1762
[mk-app] #11614 or #11612 #1762
[inst-discovered] theory-solving 0x0 basic# ; #11614
[mk-app] #11615 = #11614 #11613
[instance] 0x0 #11615
[attach-enode] #11615 0
[end-of-instance]
[mk-quant] #11612 internal_core!option.Option./Some_ext_equal_definition 5 #1764 #11613
[attach-var-names] #11612 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|V&| ; |Type|) (|V&.| ; |Dcr|)
[mk-app] #11614 not #1890
[mk-app] #11615 not #1894
[mk-app] #11616 or #11614 #11598 #11615
[mk-app] #11617 not #11616
[inst-discovered] theory-solving 0x0 basic# ; #1895
[mk-app] #11618 = #1895 #11617
[instance] 0x0 #11618
[attach-enode] #11618 0
[end-of-instance]
[mk-app] #11618 not #11617
[inst-discovered] theory-solving 0x0 basic# ; #11618
[mk-app] #11619 = #11618 #11616
[instance] 0x0 #11619
[attach-enode] #11619 0
[end-of-instance]
[mk-app] #11618 or #11614 #11598 #11615 #1899
[mk-app] #11619 or #11616 #1899
[inst-discovered] theory-solving 0x0 basic# ; #11619
[mk-app] #11620 = #11619 #11618
[instance] 0x0 #11620
[attach-enode] #11620 0
[end-of-instance]
[mk-quant] #11619 internal_vstd!std_specs.iter.VerusForLoopWrapper./VerusForLoopWrapper_constructor_definition 6 #1901 #11618
[attach-var-names] #11619 (|_history!| ; |Poly|) (|_iter!| ; |Poly|) (|_snapshot!| ; |Poly|) (|_index!| ; |Int|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11616 not #1987
[mk-app] #11617 not #1988
[mk-app] #11620 or #11616 #11617
[mk-app] #11621 not #11620
[inst-discovered] theory-solving 0x0 basic# ; #1989
[mk-app] #11622 = #1989 #11621
[instance] 0x0 #11622
[attach-enode] #11622 0
[end-of-instance]
[mk-app] #11622 not #11621
[inst-discovered] theory-solving 0x0 basic# ; #11622
[mk-app] #11623 = #11622 #11620
[instance] 0x0 #11623
[attach-enode] #11623 0
[end-of-instance]
[mk-app] #11622 or #11616 #11617 #1993
[mk-app] #11623 or #11620 #1993
[inst-discovered] theory-solving 0x0 basic# ; #11623
[mk-app] #11624 = #11623 #11622
[instance] 0x0 #11624
[attach-enode] #11624 0
[end-of-instance]
[mk-quant] #11623 internal_core!ops.range.Range./Range_constructor_definition 4 #1995 #11622
[attach-var-names] #11623 (|_end!| ; |Poly|) (|_start!| ; |Poly|) (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #11620 not #1181
[mk-app] #11621 not #2059
[mk-app] #11624 or #11620 #11621
[mk-app] #11625 not #11624
[inst-discovered] theory-solving 0x0 basic# ; #1182
[mk-app] #11626 = #1182 #11625
[instance] 0x0 #11626
[attach-enode] #11626 0
[end-of-instance]
[mk-app] #11626 not #11625
[inst-discovered] theory-solving 0x0 basic# ; #11626
[mk-app] #11627 = #11626 #11624
[instance] 0x0 #11627
[attach-enode] #11627 0
[end-of-instance]
[mk-app] #11625 or #11620 #11621 #2064
[mk-app] #11626 or #11624 #2064
[inst-discovered] theory-solving 0x0 basic# ; #11626
[mk-app] #11627 = #11626 #11625
[instance] 0x0 #11627
[attach-enode] #11627 0
[end-of-instance]
[mk-quant] #11624 internal_vstd!raw_ptr.PtrData./PtrData_constructor_definition 5 #2066 #11625
[attach-var-names] #11624 (|_metadata!| ; |Poly|) (|_provenance!| ; |vstd!raw_ptr.Provenance.|) (|_addr!| ; |Int|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11626 not #2081
[mk-app] #11627 or #11626 #10993
[mk-app] #11628 not #11627
[inst-discovered] theory-solving 0x0 basic# ; #2082
[mk-app] #11629 = #2082 #11628
[instance] 0x0 #11629
[attach-enode] #11629 0
[end-of-instance]
[mk-app] #11629 not #11628
[inst-discovered] theory-solving 0x0 basic# ; #11629
[mk-app] #11630 = #11629 #11627
[instance] 0x0 #11630
[attach-enode] #11630 0
[end-of-instance]
[mk-app] #11628 or #11626 #10993 #2436
[mk-app] #11629 or #11627 #2436
[inst-discovered] theory-solving 0x0 basic# ; #11629
[mk-app] #11630 = #11629 #11628
[instance] 0x0 #11630
[attach-enode] #11630 0
[end-of-instance]
[mk-quant] #11627 internal_u_tokenizer!error.SourceRange./SourceRange_constructor_definition 2 #2438 #11628
[attach-var-names] #11627 (|_end!| ; |Int|) (|_start!| ; |Int|)
[mk-app] #11629 not #2486
[mk-app] #11630 not #2489
[mk-app] #11631 or #11629 #11630
[mk-app] #11632 not #11631
[inst-discovered] theory-solving 0x0 basic# ; #2490
[mk-app] #11633 = #2490 #11632
[instance] 0x0 #11633
[attach-enode] #11633 0
[end-of-instance]
[mk-app] #11633 not #11632
[inst-discovered] theory-solving 0x0 basic# ; #11633
[mk-app] #11634 = #11633 #11631
[instance] 0x0 #11634
[attach-enode] #11634 0
[end-of-instance]
[mk-app] #11633 or #11629 #11630 #2493
[mk-app] #11634 or #11631 #2493
[inst-discovered] theory-solving 0x0 basic# ; #11634
[mk-app] #11635 = #11634 #11633
[instance] 0x0 #11635
[attach-enode] #11635 0
[end-of-instance]
[mk-quant] #11634 internal_u_tokenizer!token.Token./Token_constructor_definition 2 #2495 #11633
[attach-var-names] #11634 (|_variant!| ; |u_tokenizer!token.Variant.|) (|_source_range!| ; |u_tokenizer!error.SourceRange.|)
[mk-app] #11631 not #2718
[mk-app] #11632 not #2719
[mk-app] #11635 not #2722
[mk-app] #11636 or #11631 #11632 #11635
[mk-app] #11637 not #11636
[inst-discovered] theory-solving 0x0 basic# ; #2723
[mk-app] #11638 = #2723 #11637
[instance] 0x0 #11638
[attach-enode] #11638 0
[end-of-instance]
[mk-app] #11638 not #11637
[inst-discovered] theory-solving 0x0 basic# ; #11638
[mk-app] #11639 = #11638 #11636
[instance] 0x0 #11639
[attach-enode] #11639 0
[end-of-instance]
[mk-app] #11638 or #11631 #11632 #11635 #2724
[mk-app] #11639 or #11636 #2724
[inst-discovered] theory-solving 0x0 basic# ; #11639
[mk-app] #11640 = #11639 #11638
[instance] 0x0 #11640
[attach-enode] #11640 0
[end-of-instance]
[mk-quant] #11639 internal_tuple__1./tuple__1_ext_equal_definition 5 #2726 #11638
[attach-var-names] #11639 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #11636 or #11598 #11617
[mk-app] #11637 not #11636
[inst-discovered] theory-solving 0x0 basic# ; #2748
[mk-app] #11640 = #2748 #11637
[instance] 0x0 #11640
[attach-enode] #11640 0
[end-of-instance]
[mk-app] #11640 not #11637
[inst-discovered] theory-solving 0x0 basic# ; #11640
[mk-app] #11641 = #11640 #11636
[instance] 0x0 #11641
[attach-enode] #11641 0
[end-of-instance]
[mk-app] #11640 or #11598 #11617 #2752
[mk-app] #11641 or #11636 #2752
[inst-discovered] theory-solving 0x0 basic# ; #11641
[mk-app] #11642 = #11641 #11640
[instance] 0x0 #11642
[attach-enode] #11642 0
[end-of-instance]
[mk-quant] #11641 internal_tuple__2./tuple__2_constructor_definition 6 #2754 #11640
[attach-var-names] #11641 (|_1!| ; |Poly|) (|_0!| ; |Poly|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #11636 not #2798
[mk-app] #11637 not #2799
[mk-app] #11642 not #2802
[mk-app] #11643 not #2804
[mk-app] #11644 or #11636 #11637 #11642 #11643
[mk-app] #11645 not #11644
[inst-discovered] theory-solving 0x0 basic# ; #2805
[mk-app] #11646 = #2805 #11645
[instance] 0x0 #11646
[attach-enode] #11646 0
[end-of-instance]
[mk-app] #11646 not #11645
[inst-discovered] theory-solving 0x0 basic# ; #11646
[mk-app] #11647 = #11646 #11644
[instance] 0x0 #11647
[attach-enode] #11647 0
[end-of-instance]
[mk-app] #11646 or #11636 #11637 #11642 #11643 #2806
[mk-app] #11647 or #11644 #2806
[inst-discovered] theory-solving 0x0 basic# ; #11647
[mk-app] #11648 = #11647 #11646
[instance] 0x0 #11648
[attach-enode] #11648 0
[end-of-instance]
[mk-quant] #11647 internal_tuple__2./tuple__2_ext_equal_definition 7 #2808 #11646
[attach-var-names] #11647 (|y| ; |Poly|) (|x| ; |Poly|) (|deep| ; |Bool|) (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #11644 not #11123
[mk-app] #11645 or #11644 #11140
[mk-app] #11648 not #11645
[inst-discovered] theory-solving 0x0 basic# ; #11141
[mk-app] #11649 = #11141 #11648
[instance] 0x0 #11649
[attach-enode] #11649 0
[end-of-instance]
[mk-app] #11649 not #11648
[inst-discovered] theory-solving 0x0 basic# ; #11649
[mk-app] #11650 = #11649 #11645
[instance] 0x0 #11650
[attach-enode] #11650 0
[end-of-instance]
[mk-app] #11648 or #11644 #11140 #11132
[mk-app] #11649 or #11645 #11132
[inst-discovered] theory-solving 0x0 basic# ; #11649
[mk-app] #11650 = #11649 #11648
[instance] 0x0 #11650
[attach-enode] #11650 0
[end-of-instance]
[mk-app] #11645 not #11648
[mk-app] #11649 or #11645 #2826
[mk-quant] #11650 prelude_has_type_array_new 4 #2815 #11649
[attach-var-names] #11650 (|Fn| ; |%%Function%%|) (|N| ; |Int|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #11651 not #2842
[mk-app] #11652 or #11651 #192
[mk-app] #11653 not #11652
[inst-discovered] theory-solving 0x0 basic# ; #2843
[mk-app] #11654 = #2843 #11653
[instance] 0x0 #11654
[attach-enode] #11654 0
[end-of-instance]
[mk-app] #11654 not #11653
[inst-discovered] theory-solving 0x0 basic# ; #11654
[mk-app] #11655 = #11654 #11652
[instance] 0x0 #11655
[attach-enode] #11655 0
[end-of-instance]
[mk-app] #11654 or #11651 #192 #2845
[mk-app] #11655 or #11652 #2845
[inst-discovered] theory-solving 0x0 basic# ; #11655
[mk-app] #11656 = #11655 #11654
[instance] 0x0 #11656
[attach-enode] #11656 0
[end-of-instance]
[mk-quant] #11655 prelude_has_type_array_index 7 #2847 #11654
[attach-var-names] #11655 (|i| ; |Poly|) (|Fn| ; |%%Function%%|) (|N| ; |Type|) (|Ndcr| ; |Dcr|) (|Nd| ; |Dcr|) (|T| ; |Type|) (|Tdcr| ; |Dcr|)
[mk-app] #11652 not #2897
[mk-app] #11653 not #2907
[mk-app] #11656 or #11652 #11653
[mk-app] #11657 not #11656
[inst-discovered] theory-solving 0x0 basic# ; #2908
[mk-app] #11658 = #2908 #11657
[instance] 0x0 #11658
[attach-enode] #11658 0
[end-of-instance]
[mk-app] #11658 not #11657
[inst-discovered] theory-solving 0x0 basic# ; #11658
[mk-app] #11659 = #11658 #11656
[instance] 0x0 #11659
[attach-enode] #11659 0
[end-of-instance]
[mk-app] #11657 or #2537 #11652 #11653 #2902
[mk-app] #11658 or #2537 #11656 #2902
[inst-discovered] theory-solving 0x0 basic# ; #11658
[mk-app] #11659 = #11658 #11657
[instance] 0x0 #11659
[attach-enode] #11659 0
[end-of-instance]
[mk-quant] #11656 user_no_function_4 1 #2905 #11657
[attach-var-names] #11656 (|x$| ; |Poly|)
[mk-app] #11658 not #2921
[mk-app] #11659 or #11652 #11658
[mk-app] #11660 not #11659
[inst-discovered] theory-solving 0x0 basic# ; #2922
[mk-app] #11661 = #2922 #11660
[instance] 0x0 #11661
[attach-enode] #11661 0
[end-of-instance]
[mk-app] #11661 not #11660
[inst-discovered] theory-solving 0x0 basic# ; #11661
[mk-app] #11662 = #11661 #11659
[instance] 0x0 #11662
[attach-enode] #11662 0
[end-of-instance]
[mk-app] #11660 or #2537 #11652 #11658 #2916
[mk-app] #11661 or #2537 #11659 #2916
[inst-discovered] theory-solving 0x0 basic# ; #11661
[mk-app] #11662 = #11661 #11660
[instance] 0x0 #11662
[attach-enode] #11662 0
[end-of-instance]
[mk-quant] #11659 user_no_function_5 1 #2919 #11660
[attach-var-names] #11659 (|x$| ; |Poly|)
[mk-app] #11661 not #2934
[mk-app] #11662 or #11652 #11661
[mk-app] #11663 not #11662
[inst-discovered] theory-solving 0x0 basic# ; #2935
[mk-app] #11664 = #2935 #11663
[instance] 0x0 #11664
[attach-enode] #11664 0
[end-of-instance]
[mk-app] #11664 not #11663
[inst-discovered] theory-solving 0x0 basic# ; #11664
[mk-app] #11665 = #11664 #11662
[instance] 0x0 #11665
[attach-enode] #11665 0
[end-of-instance]
[mk-app] #11663 or #2537 #11652 #11661 #2929
[mk-app] #11664 or #2537 #11662 #2929
[inst-discovered] theory-solving 0x0 basic# ; #11664
[mk-app] #11665 = #11664 #11663
[instance] 0x0 #11665
[attach-enode] #11665 0
[end-of-instance]
[mk-quant] #11662 user_no_function_6 1 #2932 #11663
[attach-var-names] #11662 (|x$| ; |Poly|)
[mk-app] #11664 not #2948
[mk-app] #11665 or #11652 #11664
[mk-app] #11666 not #11665
[inst-discovered] theory-solving 0x0 basic# ; #2949
[mk-app] #11667 = #2949 #11666
[instance] 0x0 #11667
[attach-enode] #11667 0
[end-of-instance]
[mk-app] #11667 not #11666
[inst-discovered] theory-solving 0x0 basic# ; #11667
[mk-app] #11668 = #11667 #11665
[instance] 0x0 #11668
[attach-enode] #11668 0
[end-of-instance]
[mk-app] #11666 or #2537 #11652 #11664 #2943
[mk-app] #11667 or #2537 #11665 #2943
[inst-discovered] theory-solving 0x0 basic# ; #11667
[mk-app] #11668 = #11667 #11666
[instance] 0x0 #11668
[attach-enode] #11668 0
[end-of-instance]
[mk-quant] #11665 user_no_function_7 1 #2946 #11666
[attach-var-names] #11665 (|x$| ; |Poly|)
[mk-app] #11667 not #2960
[mk-app] #11668 not #2962
[mk-app] #11669 not #2965
[mk-app] #11670 or #11667 #11668 #11669 #3188
[mk-app] #11671 not #11670
[inst-discovered] theory-solving 0x0 basic# ; #2972
[mk-app] #11672 = #2972 #11671
[instance] 0x0 #11672
[attach-enode] #11672 0
[end-of-instance]
[mk-app] #11672 or #2973 #11671
[mk-quant] #11673 internal_vstd__array__ArrayAdditionalSpecFns_trait_type_bounds_definition 4 #2970 #11672
[attach-var-names] #11673 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #2972
[mk-app] #11674 = #2972 #11671
[instance] 0x0 #11674
[attach-enode] #11674 0
[end-of-instance]
[mk-app] #11674 or #2980 #11671
[mk-quant] #11675 internal_vstd__slice__SliceAdditionalSpecFns_trait_type_bounds_definition 4 #2978 #11674
[attach-var-names] #11675 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #2997
[mk-app] #11676 = #2997 #2997
[instance] 0x0 #11676
[attach-enode] #11676 0
[end-of-instance]
[mk-app] #11676 not #3016
[mk-app] #11677 not #3021
[mk-app] #11678 or #3188 #11676 #11677
[mk-app] #11679 not #11678
[inst-discovered] theory-solving 0x0 basic# ; #3022
[mk-app] #11680 = #3022 #11679
[instance] 0x0 #11680
[attach-enode] #11680 0
[end-of-instance]
[mk-app] #11680 or #3026 #11679
[mk-quant] #11681 internal_core__ops__function__FnOnce_trait_type_bounds_definition 4 #3024 #11680
[attach-var-names] #11681 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #11682 or #3026 #3188 #11676
[mk-app] #11683 not #11682
[inst-discovered] theory-solving 0x0 basic# ; #3030
[mk-app] #11684 = #3030 #11683
[instance] 0x0 #11684
[attach-enode] #11684 0
[end-of-instance]
[mk-app] #11684 or #3034 #11683
[mk-quant] #11685 internal_core__ops__function__FnMut_trait_type_bounds_definition 4 #3032 #11684
[attach-var-names] #11685 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #11686 or #3034 #3188 #11676
[mk-app] #11687 not #11686
[inst-discovered] theory-solving 0x0 basic# ; #3038
[mk-app] #11688 = #3038 #11687
[instance] 0x0 #11688
[attach-enode] #11688 0
[end-of-instance]
[mk-app] #11688 or #3042 #11687
[mk-quant] #11689 internal_core__ops__function__Fn_trait_type_bounds_definition 4 #3040 #11688
[attach-var-names] #11689 (|Args&| ; |Type|) (|Args&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #11690 not #3062
[mk-app] #11691 not #3066
[mk-app] #11692 not #3069
[mk-app] #11693 not #3071
[mk-app] #11694 not #3072
[mk-app] #11695 or #11690 #11691 #11692 #11693 #11694
[mk-app] #11696 not #11695
[inst-discovered] theory-solving 0x0 basic# ; #3077
[mk-app] #11697 = #3077 #11696
[instance] 0x0 #11697
[attach-enode] #11697 0
[end-of-instance]
[mk-app] #11697 or #3078 #11696
[mk-quant] #11698 internal_core__iter__traits__collect__IntoIterator_trait_type_bounds_definition 2 #3075 #11697
[attach-var-names] #11698 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #11699 not #3082
[mk-app] #11700 or #3188 #2996 #11699
[mk-app] #11701 not #11700
[inst-discovered] theory-solving 0x0 basic# ; #3083
[mk-app] #11702 = #3083 #11701
[instance] 0x0 #11702
[attach-enode] #11702 0
[end-of-instance]
[mk-app] #11702 or #3087 #11701
[mk-quant] #11703 internal_core__iter__range__Step_trait_type_bounds_definition 2 #3085 #11702
[attach-var-names] #11703 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #11704 or #3188 #2996 #11699 #3087
[mk-app] #11705 not #11704
[inst-discovered] theory-solving 0x0 basic# ; #3098
[mk-app] #11706 = #3098 #11705
[instance] 0x0 #11706
[attach-enode] #11706 0
[end-of-instance]
[mk-app] #11706 or #3102 #11705
[mk-quant] #11707 internal_vstd__std_specs__iter__StepSpec_trait_type_bounds_definition 2 #3100 #11706
[attach-var-names] #11707 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #11708 or #4044 #3188
[mk-app] #11709 not #11708
[inst-discovered] theory-solving 0x0 basic# ; #3107
[mk-app] #11710 = #3107 #11709
[instance] 0x0 #11710
[attach-enode] #11710 0
[end-of-instance]
[mk-app] #11710 or #3111 #11709
[mk-quant] #11711 internal_vstd__std_specs__option__OptionAdditionalFns_trait_type_bounds_definition 4 #3109 #11710
[attach-var-names] #11711 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #3107
[mk-app] #11712 = #3107 #11709
[instance] 0x0 #11712
[attach-enode] #11712 0
[end-of-instance]
[mk-app] #11712 or #3118 #11709
[mk-quant] #11713 internal_vstd__std_specs__result__ResultAdditionalSpecFns_trait_type_bounds_definition 6 #3116 #11712
[attach-var-names] #11713 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #3107
[mk-app] #11714 = #3107 #11709
[instance] 0x0 #11714
[attach-enode] #11714 0
[end-of-instance]
[mk-app] #11714 or #3140 #11709
[mk-quant] #11715 internal_u_tokenizer__lex__Pushed_trait_type_bounds_definition 4 #3138 #11714
[attach-var-names] #11715 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #11716 not #2611
[mk-app] #11717 or #4044 #11716
[mk-app] #11718 not #11717
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #11719 = #2612 #11718
[instance] 0x0 #11719
[attach-enode] #11719 0
[end-of-instance]
[mk-app] #11719 not #11718
[inst-discovered] theory-solving 0x0 basic# ; #11719
[mk-app] #11720 = #11719 #11717
[instance] 0x0 #11720
[attach-enode] #11720 0
[end-of-instance]
[mk-app] #11718 or #4044 #11716 #3148
[mk-app] #11719 or #11717 #3148
[inst-discovered] theory-solving 0x0 basic# ; #11719
[mk-app] #11720 = #11719 #11718
[instance] 0x0 #11720
[attach-enode] #11720 0
[end-of-instance]
[mk-quant] #11719 internal_proj____vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_true_definition 4 #3150 #11718
[attach-var-names] #11719 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11717 or #4044 #11716
[mk-app] #11720 not #11717
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #11721 = #2612 #11720
[instance] 0x0 #11721
[attach-enode] #11721 0
[end-of-instance]
[mk-app] #11721 not #11720
[inst-discovered] theory-solving 0x0 basic# ; #11721
[mk-app] #11722 = #11721 #11717
[instance] 0x0 #11722
[attach-enode] #11722 0
[end-of-instance]
[mk-app] #11720 or #4044 #11716 #3157
[mk-app] #11721 or #11717 #3157
[inst-discovered] theory-solving 0x0 basic# ; #11721
[mk-app] #11722 = #11721 #11720
[instance] 0x0 #11722
[attach-enode] #11722 0
[end-of-instance]
[mk-quant] #11721 internal_proj__vstd!view.View./V_vstd__array__impl&__0_assoc_type_impl_false_definition 4 #3159 #11720
[attach-var-names] #11721 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11717 or #3188 #2989
[mk-app] #11722 not #11717
[inst-discovered] theory-solving 0x0 basic# ; #3237
[mk-app] #11723 = #3237 #11722
[instance] 0x0 #11723
[attach-enode] #11723 0
[end-of-instance]
[mk-app] #11723 not #11722
[inst-discovered] theory-solving 0x0 basic# ; #11723
[mk-app] #11724 = #11723 #11717
[instance] 0x0 #11724
[attach-enode] #11724 0
[end-of-instance]
[mk-app] #11723 or #3188 #2989 #3240
[mk-app] #11724 or #11717 #3240
[inst-discovered] theory-solving 0x0 basic# ; #11724
[mk-app] #11725 = #11724 #11723
[instance] 0x0 #11725
[attach-enode] #11725 0
[end-of-instance]
[mk-quant] #11724 internal_proj____vstd!view.View./V_vstd__view__impl&__4_assoc_type_impl_true_definition 2 #3242 #11723
[attach-var-names] #11724 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11717 or #3188 #2989
[mk-app] #11722 not #11717
[inst-discovered] theory-solving 0x0 basic# ; #3237
[mk-app] #11725 = #3237 #11722
[instance] 0x0 #11725
[attach-enode] #11725 0
[end-of-instance]
[mk-app] #11725 not #11722
[inst-discovered] theory-solving 0x0 basic# ; #11725
[mk-app] #11726 = #11725 #11717
[instance] 0x0 #11726
[attach-enode] #11726 0
[end-of-instance]
[mk-app] #11725 or #3188 #2989 #3248
[mk-app] #11726 or #11717 #3248
[inst-discovered] theory-solving 0x0 basic# ; #11726
[mk-app] #11727 = #11726 #11725
[instance] 0x0 #11727
[attach-enode] #11727 0
[end-of-instance]
[mk-quant] #11726 internal_proj__vstd!view.View./V_vstd__view__impl&__4_assoc_type_impl_false_definition 2 #3250 #11725
[attach-var-names] #11726 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11717 or #3188 #2989
[mk-app] #11722 not #11717
[inst-discovered] theory-solving 0x0 basic# ; #3237
[mk-app] #11727 = #3237 #11722
[instance] 0x0 #11727
[attach-enode] #11727 0
[end-of-instance]
[mk-app] #11727 not #11722
[inst-discovered] theory-solving 0x0 basic# ; #11727
[mk-app] #11728 = #11727 #11717
[instance] 0x0 #11728
[attach-enode] #11728 0
[end-of-instance]
[mk-app] #11727 or #3188 #2989 #3256
[mk-app] #11728 or #11717 #3256
[inst-discovered] theory-solving 0x0 basic# ; #11728
[mk-app] #11729 = #11728 #11727
[instance] 0x0 #11729
[attach-enode] #11729 0
[end-of-instance]
[mk-quant] #11728 internal_proj____vstd!view.View./V_vstd__view__impl&__6_assoc_type_impl_true_definition 2 #3258 #11727
[attach-var-names] #11728 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11717 or #3188 #2989
[mk-app] #11722 not #11717
[inst-discovered] theory-solving 0x0 basic# ; #3237
[mk-app] #11729 = #3237 #11722
[instance] 0x0 #11729
[attach-enode] #11729 0
[end-of-instance]
[mk-app] #11729 not #11722
[inst-discovered] theory-solving 0x0 basic# ; #11729
[mk-app] #11730 = #11729 #11717
[instance] 0x0 #11730
[attach-enode] #11730 0
[end-of-instance]
[mk-app] #11729 or #3188 #2989 #3263
[mk-app] #11730 or #11717 #3263
[inst-discovered] theory-solving 0x0 basic# ; #11730
[mk-app] #11731 = #11730 #11729
[instance] 0x0 #11731
[attach-enode] #11731 0
[end-of-instance]
[mk-quant] #11730 internal_proj__vstd!view.View./V_vstd__view__impl&__6_assoc_type_impl_false_definition 2 #3265 #11729
[attach-var-names] #11730 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11717 or #4044 #3188 #10314
[mk-app] #11722 not #11717
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11731 = #3269 #11722
[instance] 0x0 #11731
[attach-enode] #11731 0
[end-of-instance]
[mk-app] #11731 not #11722
[inst-discovered] theory-solving 0x0 basic# ; #11731
[mk-app] #11732 = #11731 #11717
[instance] 0x0 #11732
[attach-enode] #11732 0
[end-of-instance]
[mk-app] #11731 or #4044 #3188 #10314 #3272
[mk-app] #11732 or #11717 #3272
[inst-discovered] theory-solving 0x0 basic# ; #11732
[mk-app] #11733 = #11732 #11731
[instance] 0x0 #11733
[attach-enode] #11733 0
[end-of-instance]
[mk-quant] #11732 internal_proj____vstd!view.View./V_vstd__view__impl&__8_assoc_type_impl_true_definition 4 #3274 #11731
[attach-var-names] #11732 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11717 or #4044 #3188 #10314
[mk-app] #11722 not #11717
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11733 = #3269 #11722
[instance] 0x0 #11733
[attach-enode] #11733 0
[end-of-instance]
[mk-app] #11733 not #11722
[inst-discovered] theory-solving 0x0 basic# ; #11733
[mk-app] #11734 = #11733 #11717
[instance] 0x0 #11734
[attach-enode] #11734 0
[end-of-instance]
[mk-app] #11733 or #4044 #3188 #10314 #3280
[mk-app] #11734 or #11717 #3280
[inst-discovered] theory-solving 0x0 basic# ; #11734
[mk-app] #11735 = #11734 #11733
[instance] 0x0 #11735
[attach-enode] #11735 0
[end-of-instance]
[mk-quant] #11734 internal_proj__vstd!view.View./V_vstd__view__impl&__8_assoc_type_impl_false_definition 4 #3282 #11733
[attach-var-names] #11734 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11717 or #3188 #2989
[mk-app] #11722 not #11717
[inst-discovered] theory-solving 0x0 basic# ; #3237
[mk-app] #11735 = #3237 #11722
[instance] 0x0 #11735
[attach-enode] #11735 0
[end-of-instance]
[mk-app] #11735 not #11722
[inst-discovered] theory-solving 0x0 basic# ; #11735
[mk-app] #11736 = #11735 #11717
[instance] 0x0 #11736
[attach-enode] #11736 0
[end-of-instance]
[mk-app] #11735 or #3188 #2989 #3334
[mk-app] #11736 or #11717 #3334
[inst-discovered] theory-solving 0x0 basic# ; #11736
[mk-app] #11737 = #11736 #11735
[instance] 0x0 #11737
[attach-enode] #11737 0
[end-of-instance]
[mk-quant] #11736 internal_proj____vstd!view.View./V_vstd__view__impl&__46_assoc_type_impl_true_definition 2 #3336 #11735
[attach-var-names] #11736 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #11717 or #3188 #2989
[mk-app] #11722 not #11717
[inst-discovered] theory-solving 0x0 basic# ; #3237
[mk-app] #11737 = #3237 #11722
[instance] 0x0 #11737
[attach-enode] #11737 0
[end-of-instance]
[mk-app] #11737 not #11722
[inst-discovered] theory-solving 0x0 basic# ; #11737
[mk-app] #11738 = #11737 #11717
[instance] 0x0 #11738
[attach-enode] #11738 0
[end-of-instance]
[mk-app] #11737 or #3188 #2989 #3342
[mk-app] #11738 or #11717 #3342
[inst-discovered] theory-solving 0x0 basic# ; #11738
[mk-app] #11739 = #11738 #11737
[instance] 0x0 #11739
[attach-enode] #11739 0
[end-of-instance]
[mk-quant] #11738 internal_proj__vstd!view.View./V_vstd__view__impl&__46_assoc_type_impl_false_definition 2 #3344 #11737
[attach-var-names] #11738 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #11717 or #4044 #3188 #11667 #2989
[mk-app] #11722 not #11717
[inst-discovered] theory-solving 0x0 basic# ; #3348
[mk-app] #11739 = #3348 #11722
[instance] 0x0 #11739
[attach-enode] #11739 0
[end-of-instance]
[mk-app] #11739 not #11722
[inst-discovered] theory-solving 0x0 basic# ; #11739
[mk-app] #11740 = #11739 #11717
[instance] 0x0 #11740
[attach-enode] #11740 0
[end-of-instance]
[mk-app] #11739 or #4044 #3188 #11667 #2989 #3351
[mk-app] #11740 or #11717 #3351
[inst-discovered] theory-solving 0x0 basic# ; #11740
[mk-app] #11741 = #11740 #11739
[instance] 0x0 #11741
[attach-enode] #11741 0
[end-of-instance]
[mk-quant] #11740 internal_proj____vstd!view.View./V_vstd__view__impl&__48_assoc_type_impl_true_definition 4 #3353 #11739
[attach-var-names] #11740 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #11717 or #4044 #3188 #11667 #2989
[mk-app] #11722 not #11717
[inst-discovered] theory-solving 0x0 basic# ; #3348
[mk-app] #11741 = #3348 #11722
[instance] 0x0 #11741
[attach-enode] #11741 0
[end-of-instance]
[mk-app] #11741 not #11722
[inst-discovered] theory-solving 0x0 basic# ; #11741
[mk-app] #11742 = #11741 #11717
[instance] 0x0 #11742
[attach-enode] #11742 0
[end-of-instance]
[mk-app] #11741 or #4044 #3188 #11667 #2989 #3360
[mk-app] #11742 or #11717 #3360
[inst-discovered] theory-solving 0x0 basic# ; #11742
[mk-app] #11743 = #11742 #11741
[instance] 0x0 #11743
[attach-enode] #11743 0
[end-of-instance]
[mk-quant] #11742 internal_proj__vstd!view.View./V_vstd__view__impl&__48_assoc_type_impl_false_definition 4 #3362 #11741
[attach-var-names] #11742 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #11717 not #3366
[mk-app] #11722 not #3367
[mk-app] #11743 or #4044 #11717 #11722
[mk-app] #11744 not #11743
[inst-discovered] theory-solving 0x0 basic# ; #3368
[mk-app] #11745 = #3368 #11744
[instance] 0x0 #11745
[attach-enode] #11745 0
[end-of-instance]
[mk-app] #11745 not #11744
[inst-discovered] theory-solving 0x0 basic# ; #11745
[mk-app] #11746 = #11745 #11743
[instance] 0x0 #11746
[attach-enode] #11746 0
[end-of-instance]
[mk-app] #11745 or #4044 #11717 #11722 #3371
[mk-app] #11746 or #11743 #3371
[inst-discovered] theory-solving 0x0 basic# ; #11746
[mk-app] #11747 = #11746 #11745
[instance] 0x0 #11747
[attach-enode] #11747 0
[end-of-instance]
[mk-quant] #11746 internal_proj____core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__2_assoc_type_impl_true_definition 4 #3373 #11745
[attach-var-names] #11746 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11743 or #4044 #11717 #11722
[mk-app] #11744 not #11743
[inst-discovered] theory-solving 0x0 basic# ; #3368
[mk-app] #11747 = #3368 #11744
[instance] 0x0 #11747
[attach-enode] #11747 0
[end-of-instance]
[mk-app] #11747 not #11744
[inst-discovered] theory-solving 0x0 basic# ; #11747
[mk-app] #11748 = #11747 #11743
[instance] 0x0 #11748
[attach-enode] #11748 0
[end-of-instance]
[mk-app] #11747 or #4044 #11717 #11722 #3380
[mk-app] #11748 or #11743 #3380
[inst-discovered] theory-solving 0x0 basic# ; #11748
[mk-app] #11749 = #11748 #11747
[instance] 0x0 #11749
[attach-enode] #11749 0
[end-of-instance]
[mk-quant] #11748 internal_proj__core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__2_assoc_type_impl_false_definition 4 #3382 #11747
[attach-var-names] #11748 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11743 not #3386
[mk-app] #11744 or #4044 #11717 #11743
[mk-app] #11749 not #11744
[inst-discovered] theory-solving 0x0 basic# ; #3387
[mk-app] #11750 = #3387 #11749
[instance] 0x0 #11750
[attach-enode] #11750 0
[end-of-instance]
[mk-app] #11750 not #11749
[inst-discovered] theory-solving 0x0 basic# ; #11750
[mk-app] #11751 = #11750 #11744
[instance] 0x0 #11751
[attach-enode] #11751 0
[end-of-instance]
[mk-app] #11750 or #4044 #11717 #11743 #3389
[mk-app] #11751 or #11744 #3389
[inst-discovered] theory-solving 0x0 basic# ; #11751
[mk-app] #11752 = #11751 #11750
[instance] 0x0 #11752
[attach-enode] #11752 0
[end-of-instance]
[mk-quant] #11751 internal_proj____core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__4_assoc_type_impl_true_definition 4 #3391 #11750
[attach-var-names] #11751 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11744 or #4044 #11717 #11743
[mk-app] #11749 not #11744
[inst-discovered] theory-solving 0x0 basic# ; #3387
[mk-app] #11752 = #3387 #11749
[instance] 0x0 #11752
[attach-enode] #11752 0
[end-of-instance]
[mk-app] #11752 not #11749
[inst-discovered] theory-solving 0x0 basic# ; #11752
[mk-app] #11753 = #11752 #11744
[instance] 0x0 #11753
[attach-enode] #11753 0
[end-of-instance]
[mk-app] #11752 or #4044 #11717 #11743 #3397
[mk-app] #11753 or #11744 #3397
[inst-discovered] theory-solving 0x0 basic# ; #11753
[mk-app] #11754 = #11753 #11752
[instance] 0x0 #11754
[attach-enode] #11754 0
[end-of-instance]
[mk-quant] #11753 internal_proj__core!ops.function.FnOnce./Output_core__ops__function__impls__impl&__4_assoc_type_impl_false_definition 4 #3399 #11752
[attach-var-names] #11753 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11744 not #3403
[mk-app] #11749 not #3404
[mk-app] #11754 not #3405
[mk-app] #11755 or #11744 #3188 #11749 #11754 #10314
[mk-app] #11756 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3406
[mk-app] #11757 = #3406 #11756
[instance] 0x0 #11757
[attach-enode] #11757 0
[end-of-instance]
[mk-app] #11757 not #11756
[inst-discovered] theory-solving 0x0 basic# ; #11757
[mk-app] #11758 = #11757 #11755
[instance] 0x0 #11758
[attach-enode] #11758 0
[end-of-instance]
[mk-app] #11757 or #11744 #3188 #11749 #11754 #10314 #3410
[mk-app] #11758 or #11755 #3410
[inst-discovered] theory-solving 0x0 basic# ; #11758
[mk-app] #11759 = #11758 #11757
[instance] 0x0 #11759
[attach-enode] #11759 0
[end-of-instance]
[mk-quant] #11758 internal_proj____core!ops.function.FnOnce./Output_alloc__boxed__impl&__31_assoc_type_impl_true_definition 6 #3412 #11757
[attach-var-names] #11758 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #11755 or #11744 #3188 #11749 #11754 #10314
[mk-app] #11756 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3406
[mk-app] #11759 = #3406 #11756
[instance] 0x0 #11759
[attach-enode] #11759 0
[end-of-instance]
[mk-app] #11759 not #11756
[inst-discovered] theory-solving 0x0 basic# ; #11759
[mk-app] #11760 = #11759 #11755
[instance] 0x0 #11760
[attach-enode] #11760 0
[end-of-instance]
[mk-app] #11759 or #11744 #3188 #11749 #11754 #10314 #3419
[mk-app] #11760 or #11755 #3419
[inst-discovered] theory-solving 0x0 basic# ; #11760
[mk-app] #11761 = #11760 #11759
[instance] 0x0 #11761
[attach-enode] #11761 0
[end-of-instance]
[mk-quant] #11760 internal_proj__core!ops.function.FnOnce./Output_alloc__boxed__impl&__31_assoc_type_impl_false_definition 6 #3421 #11759
[attach-var-names] #11760 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #11755 or #3188 #3057
[mk-app] #11756 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3425
[mk-app] #11761 = #3425 #11756
[instance] 0x0 #11761
[attach-enode] #11761 0
[end-of-instance]
[mk-app] #11761 not #11756
[inst-discovered] theory-solving 0x0 basic# ; #11761
[mk-app] #11762 = #11761 #11755
[instance] 0x0 #11762
[attach-enode] #11762 0
[end-of-instance]
[mk-app] #11761 or #3188 #3057 #3426
[mk-app] #11762 or #11755 #3426
[inst-discovered] theory-solving 0x0 basic# ; #11762
[mk-app] #11763 = #11762 #11761
[instance] 0x0 #11763
[attach-enode] #11763 0
[end-of-instance]
[mk-quant] #11762 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__iter__traits__collect__impl&__0_assoc_type_impl_true_definition 2 #3428 #11761
[attach-var-names] #11762 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #3188 #3057
[mk-app] #11756 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3425
[mk-app] #11763 = #3425 #11756
[instance] 0x0 #11763
[attach-enode] #11763 0
[end-of-instance]
[mk-app] #11763 not #11756
[inst-discovered] theory-solving 0x0 basic# ; #11763
[mk-app] #11764 = #11763 #11755
[instance] 0x0 #11764
[attach-enode] #11764 0
[end-of-instance]
[mk-app] #11763 or #3188 #3057 #3434
[mk-app] #11764 or #11755 #3434
[inst-discovered] theory-solving 0x0 basic# ; #11764
[mk-app] #11765 = #11764 #11763
[instance] 0x0 #11765
[attach-enode] #11765 0
[end-of-instance]
[mk-quant] #11764 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__iter__traits__collect__impl&__0_assoc_type_impl_false_definition 2 #3436 #11763
[attach-var-names] #11764 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #3188 #3057
[mk-app] #11756 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3425
[mk-app] #11765 = #3425 #11756
[instance] 0x0 #11765
[attach-enode] #11765 0
[end-of-instance]
[mk-app] #11765 not #11756
[inst-discovered] theory-solving 0x0 basic# ; #11765
[mk-app] #11766 = #11765 #11755
[instance] 0x0 #11766
[attach-enode] #11766 0
[end-of-instance]
[mk-app] #11765 or #3188 #3057 #3440
[mk-app] #11766 or #11755 #3440
[inst-discovered] theory-solving 0x0 basic# ; #11766
[mk-app] #11767 = #11766 #11765
[instance] 0x0 #11767
[attach-enode] #11767 0
[end-of-instance]
[mk-quant] #11766 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__iter__traits__collect__impl&__0_assoc_type_impl_true_definition 2 #3442 #11765
[attach-var-names] #11766 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #3188 #3057
[mk-app] #11756 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3425
[mk-app] #11767 = #3425 #11756
[instance] 0x0 #11767
[attach-enode] #11767 0
[end-of-instance]
[mk-app] #11767 not #11756
[inst-discovered] theory-solving 0x0 basic# ; #11767
[mk-app] #11768 = #11767 #11755
[instance] 0x0 #11768
[attach-enode] #11768 0
[end-of-instance]
[mk-app] #11767 or #3188 #3057 #3446
[mk-app] #11768 or #11755 #3446
[inst-discovered] theory-solving 0x0 basic# ; #11768
[mk-app] #11769 = #11768 #11767
[instance] 0x0 #11769
[attach-enode] #11769 0
[end-of-instance]
[mk-quant] #11768 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__iter__traits__collect__impl&__0_assoc_type_impl_false_definition 2 #3448 #11767
[attach-var-names] #11768 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #4044 #11716
[mk-app] #11756 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #11769 = #2612 #11756
[instance] 0x0 #11769
[attach-enode] #11769 0
[end-of-instance]
[mk-app] #11769 not #11756
[inst-discovered] theory-solving 0x0 basic# ; #11769
[mk-app] #11770 = #11769 #11755
[instance] 0x0 #11770
[attach-enode] #11770 0
[end-of-instance]
[mk-app] #11756 or #4044 #11716 #3455
[mk-app] #11769 or #11755 #3455
[inst-discovered] theory-solving 0x0 basic# ; #11769
[mk-app] #11770 = #11769 #11756
[instance] 0x0 #11770
[attach-enode] #11770 0
[end-of-instance]
[mk-quant] #11769 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_true_definition 4 #3457 #11756
[attach-var-names] #11769 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #11716
[mk-app] #11770 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #11771 = #2612 #11770
[instance] 0x0 #11771
[attach-enode] #11771 0
[end-of-instance]
[mk-app] #11771 not #11770
[inst-discovered] theory-solving 0x0 basic# ; #11771
[mk-app] #11772 = #11771 #11755
[instance] 0x0 #11772
[attach-enode] #11772 0
[end-of-instance]
[mk-app] #11770 or #4044 #11716 #3462
[mk-app] #11771 or #11755 #3462
[inst-discovered] theory-solving 0x0 basic# ; #11771
[mk-app] #11772 = #11771 #11770
[instance] 0x0 #11772
[attach-enode] #11772 0
[end-of-instance]
[mk-quant] #11771 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__13_assoc_type_impl_false_definition 4 #3464 #11770
[attach-var-names] #11771 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #11716
[mk-app] #11772 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #11773 = #2612 #11772
[instance] 0x0 #11773
[attach-enode] #11773 0
[end-of-instance]
[mk-app] #11773 not #11772
[inst-discovered] theory-solving 0x0 basic# ; #11773
[mk-app] #11774 = #11773 #11755
[instance] 0x0 #11774
[attach-enode] #11774 0
[end-of-instance]
[mk-app] #11772 or #4044 #11716 #3469
[mk-app] #11773 or #11755 #3469
[inst-discovered] theory-solving 0x0 basic# ; #11773
[mk-app] #11774 = #11773 #11772
[instance] 0x0 #11774
[attach-enode] #11774 0
[end-of-instance]
[mk-quant] #11773 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_true_definition 4 #3471 #11772
[attach-var-names] #11773 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #11716
[mk-app] #11774 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #11775 = #2612 #11774
[instance] 0x0 #11775
[attach-enode] #11775 0
[end-of-instance]
[mk-app] #11775 not #11774
[inst-discovered] theory-solving 0x0 basic# ; #11775
[mk-app] #11776 = #11775 #11755
[instance] 0x0 #11776
[attach-enode] #11776 0
[end-of-instance]
[mk-app] #11774 or #4044 #11716 #3477
[mk-app] #11775 or #11755 #3477
[inst-discovered] theory-solving 0x0 basic# ; #11775
[mk-app] #11776 = #11775 #11774
[instance] 0x0 #11776
[attach-enode] #11776 0
[end-of-instance]
[mk-quant] #11775 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__13_assoc_type_impl_false_definition 4 #3479 #11774
[attach-var-names] #11775 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11776 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11777 = #3269 #11776
[instance] 0x0 #11777
[attach-enode] #11777 0
[end-of-instance]
[mk-app] #11777 not #11776
[inst-discovered] theory-solving 0x0 basic# ; #11777
[mk-app] #11778 = #11777 #11755
[instance] 0x0 #11778
[attach-enode] #11778 0
[end-of-instance]
[mk-app] #11777 or #4044 #3188 #10314 #3517
[mk-app] #11778 or #11755 #3517
[inst-discovered] theory-solving 0x0 basic# ; #11778
[mk-app] #11779 = #11778 #11777
[instance] 0x0 #11779
[attach-enode] #11779 0
[end-of-instance]
[mk-quant] #11778 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__11_assoc_type_impl_true_definition 4 #3519 #11777
[attach-var-names] #11778 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11776 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11779 = #3269 #11776
[instance] 0x0 #11779
[attach-enode] #11779 0
[end-of-instance]
[mk-app] #11779 not #11776
[inst-discovered] theory-solving 0x0 basic# ; #11779
[mk-app] #11780 = #11779 #11755
[instance] 0x0 #11780
[attach-enode] #11780 0
[end-of-instance]
[mk-app] #11779 or #4044 #3188 #10314 #3524
[mk-app] #11780 or #11755 #3524
[inst-discovered] theory-solving 0x0 basic# ; #11780
[mk-app] #11781 = #11780 #11779
[instance] 0x0 #11781
[attach-enode] #11781 0
[end-of-instance]
[mk-quant] #11780 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__11_assoc_type_impl_false_definition 4 #3526 #11779
[attach-var-names] #11780 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11776 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11781 = #3269 #11776
[instance] 0x0 #11781
[attach-enode] #11781 0
[end-of-instance]
[mk-app] #11781 not #11776
[inst-discovered] theory-solving 0x0 basic# ; #11781
[mk-app] #11782 = #11781 #11755
[instance] 0x0 #11782
[attach-enode] #11782 0
[end-of-instance]
[mk-app] #11781 or #4044 #3188 #10314 #3531
[mk-app] #11782 or #11755 #3531
[inst-discovered] theory-solving 0x0 basic# ; #11782
[mk-app] #11783 = #11782 #11781
[instance] 0x0 #11783
[attach-enode] #11783 0
[end-of-instance]
[mk-quant] #11782 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__11_assoc_type_impl_true_definition 4 #3533 #11781
[attach-var-names] #11782 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11776 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11783 = #3269 #11776
[instance] 0x0 #11783
[attach-enode] #11783 0
[end-of-instance]
[mk-app] #11783 not #11776
[inst-discovered] theory-solving 0x0 basic# ; #11783
[mk-app] #11784 = #11783 #11755
[instance] 0x0 #11784
[attach-enode] #11784 0
[end-of-instance]
[mk-app] #11783 or #4044 #3188 #10314 #3538
[mk-app] #11784 or #11755 #3538
[inst-discovered] theory-solving 0x0 basic# ; #11784
[mk-app] #11785 = #11784 #11783
[instance] 0x0 #11785
[attach-enode] #11785 0
[end-of-instance]
[mk-quant] #11784 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__11_assoc_type_impl_false_definition 4 #3540 #11783
[attach-var-names] #11784 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11776 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11785 = #3269 #11776
[instance] 0x0 #11785
[attach-enode] #11785 0
[end-of-instance]
[mk-app] #11785 not #11776
[inst-discovered] theory-solving 0x0 basic# ; #11785
[mk-app] #11786 = #11785 #11755
[instance] 0x0 #11786
[attach-enode] #11786 0
[end-of-instance]
[mk-app] #11785 or #4044 #3188 #10314 #3545
[mk-app] #11786 or #11755 #3545
[inst-discovered] theory-solving 0x0 basic# ; #11786
[mk-app] #11787 = #11786 #11785
[instance] 0x0 #11787
[attach-enode] #11787 0
[end-of-instance]
[mk-quant] #11786 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__18_assoc_type_impl_true_definition 4 #3547 #11785
[attach-var-names] #11786 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11776 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11787 = #3269 #11776
[instance] 0x0 #11787
[attach-enode] #11787 0
[end-of-instance]
[mk-app] #11787 not #11776
[inst-discovered] theory-solving 0x0 basic# ; #11787
[mk-app] #11788 = #11787 #11755
[instance] 0x0 #11788
[attach-enode] #11788 0
[end-of-instance]
[mk-app] #11787 or #4044 #3188 #10314 #3552
[mk-app] #11788 or #11755 #3552
[inst-discovered] theory-solving 0x0 basic# ; #11788
[mk-app] #11789 = #11788 #11787
[instance] 0x0 #11789
[attach-enode] #11789 0
[end-of-instance]
[mk-quant] #11788 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__18_assoc_type_impl_false_definition 4 #3554 #11787
[attach-var-names] #11788 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11776 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11789 = #3269 #11776
[instance] 0x0 #11789
[attach-enode] #11789 0
[end-of-instance]
[mk-app] #11789 not #11776
[inst-discovered] theory-solving 0x0 basic# ; #11789
[mk-app] #11790 = #11789 #11755
[instance] 0x0 #11790
[attach-enode] #11790 0
[end-of-instance]
[mk-app] #11789 or #4044 #3188 #10314 #3559
[mk-app] #11790 or #11755 #3559
[inst-discovered] theory-solving 0x0 basic# ; #11790
[mk-app] #11791 = #11790 #11789
[instance] 0x0 #11791
[attach-enode] #11791 0
[end-of-instance]
[mk-quant] #11790 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__18_assoc_type_impl_true_definition 4 #3561 #11789
[attach-var-names] #11790 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11776 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11791 = #3269 #11776
[instance] 0x0 #11791
[attach-enode] #11791 0
[end-of-instance]
[mk-app] #11791 not #11776
[inst-discovered] theory-solving 0x0 basic# ; #11791
[mk-app] #11792 = #11791 #11755
[instance] 0x0 #11792
[attach-enode] #11792 0
[end-of-instance]
[mk-app] #11791 or #4044 #3188 #10314 #3566
[mk-app] #11792 or #11755 #3566
[inst-discovered] theory-solving 0x0 basic# ; #11792
[mk-app] #11793 = #11792 #11791
[instance] 0x0 #11793
[attach-enode] #11793 0
[end-of-instance]
[mk-quant] #11792 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__18_assoc_type_impl_false_definition 4 #3568 #11791
[attach-var-names] #11792 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #11716
[mk-app] #11776 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #11793 = #2612 #11776
[instance] 0x0 #11793
[attach-enode] #11793 0
[end-of-instance]
[mk-app] #11793 not #11776
[inst-discovered] theory-solving 0x0 basic# ; #11793
[mk-app] #11794 = #11793 #11755
[instance] 0x0 #11794
[attach-enode] #11794 0
[end-of-instance]
[mk-app] #11776 or #4044 #11716 #3574
[mk-app] #11793 or #11755 #3574
[inst-discovered] theory-solving 0x0 basic# ; #11793
[mk-app] #11794 = #11793 #11776
[instance] 0x0 #11794
[attach-enode] #11794 0
[end-of-instance]
[mk-quant] #11793 internal_proj____core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_true_definition 4 #3576 #11776
[attach-var-names] #11793 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #11716
[mk-app] #11794 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #11795 = #2612 #11794
[instance] 0x0 #11795
[attach-enode] #11795 0
[end-of-instance]
[mk-app] #11795 not #11794
[inst-discovered] theory-solving 0x0 basic# ; #11795
[mk-app] #11796 = #11795 #11755
[instance] 0x0 #11796
[attach-enode] #11796 0
[end-of-instance]
[mk-app] #11794 or #4044 #11716 #3582
[mk-app] #11795 or #11755 #3582
[inst-discovered] theory-solving 0x0 basic# ; #11795
[mk-app] #11796 = #11795 #11794
[instance] 0x0 #11796
[attach-enode] #11796 0
[end-of-instance]
[mk-quant] #11795 internal_proj__core!iter.traits.collect.IntoIterator./Item_core__array__impl&__14_assoc_type_impl_false_definition 4 #3584 #11794
[attach-var-names] #11795 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #11716
[mk-app] #11796 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #11797 = #2612 #11796
[instance] 0x0 #11797
[attach-enode] #11797 0
[end-of-instance]
[mk-app] #11797 not #11796
[inst-discovered] theory-solving 0x0 basic# ; #11797
[mk-app] #11798 = #11797 #11755
[instance] 0x0 #11798
[attach-enode] #11798 0
[end-of-instance]
[mk-app] #11796 or #4044 #11716 #3589
[mk-app] #11797 or #11755 #3589
[inst-discovered] theory-solving 0x0 basic# ; #11797
[mk-app] #11798 = #11797 #11796
[instance] 0x0 #11798
[attach-enode] #11798 0
[end-of-instance]
[mk-quant] #11797 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_true_definition 4 #3591 #11796
[attach-var-names] #11797 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #11716
[mk-app] #11798 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #11799 = #2612 #11798
[instance] 0x0 #11799
[attach-enode] #11799 0
[end-of-instance]
[mk-app] #11799 not #11798
[inst-discovered] theory-solving 0x0 basic# ; #11799
[mk-app] #11800 = #11799 #11755
[instance] 0x0 #11800
[attach-enode] #11800 0
[end-of-instance]
[mk-app] #11798 or #4044 #11716 #3597
[mk-app] #11799 or #11755 #3597
[inst-discovered] theory-solving 0x0 basic# ; #11799
[mk-app] #11800 = #11799 #11798
[instance] 0x0 #11800
[attach-enode] #11800 0
[end-of-instance]
[mk-quant] #11799 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_core__array__impl&__14_assoc_type_impl_false_definition 4 #3599 #11798
[attach-var-names] #11799 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11801 = #3269 #11800
[instance] 0x0 #11801
[attach-enode] #11801 0
[end-of-instance]
[mk-app] #11801 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11801
[mk-app] #11802 = #11801 #11755
[instance] 0x0 #11802
[attach-enode] #11802 0
[end-of-instance]
[mk-app] #11801 or #4044 #3188 #10314 #3635
[mk-app] #11802 or #11755 #3635
[inst-discovered] theory-solving 0x0 basic# ; #11802
[mk-app] #11803 = #11802 #11801
[instance] 0x0 #11803
[attach-enode] #11803 0
[end-of-instance]
[mk-quant] #11802 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__12_assoc_type_impl_true_definition 4 #3637 #11801
[attach-var-names] #11802 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11803 = #3269 #11800
[instance] 0x0 #11803
[attach-enode] #11803 0
[end-of-instance]
[mk-app] #11803 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11803
[mk-app] #11804 = #11803 #11755
[instance] 0x0 #11804
[attach-enode] #11804 0
[end-of-instance]
[mk-app] #11803 or #4044 #3188 #10314 #3642
[mk-app] #11804 or #11755 #3642
[inst-discovered] theory-solving 0x0 basic# ; #11804
[mk-app] #11805 = #11804 #11803
[instance] 0x0 #11805
[attach-enode] #11805 0
[end-of-instance]
[mk-quant] #11804 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__12_assoc_type_impl_false_definition 4 #3644 #11803
[attach-var-names] #11804 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11805 = #3269 #11800
[instance] 0x0 #11805
[attach-enode] #11805 0
[end-of-instance]
[mk-app] #11805 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11805
[mk-app] #11806 = #11805 #11755
[instance] 0x0 #11806
[attach-enode] #11806 0
[end-of-instance]
[mk-app] #11805 or #4044 #3188 #10314 #3649
[mk-app] #11806 or #11755 #3649
[inst-discovered] theory-solving 0x0 basic# ; #11806
[mk-app] #11807 = #11806 #11805
[instance] 0x0 #11807
[attach-enode] #11807 0
[end-of-instance]
[mk-quant] #11806 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__12_assoc_type_impl_true_definition 4 #3651 #11805
[attach-var-names] #11806 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11807 = #3269 #11800
[instance] 0x0 #11807
[attach-enode] #11807 0
[end-of-instance]
[mk-app] #11807 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11807
[mk-app] #11808 = #11807 #11755
[instance] 0x0 #11808
[attach-enode] #11808 0
[end-of-instance]
[mk-app] #11807 or #4044 #3188 #10314 #3656
[mk-app] #11808 or #11755 #3656
[inst-discovered] theory-solving 0x0 basic# ; #11808
[mk-app] #11809 = #11808 #11807
[instance] 0x0 #11809
[attach-enode] #11809 0
[end-of-instance]
[mk-quant] #11808 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__12_assoc_type_impl_false_definition 4 #3658 #11807
[attach-var-names] #11808 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11809 = #3269 #11800
[instance] 0x0 #11809
[attach-enode] #11809 0
[end-of-instance]
[mk-app] #11809 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11809
[mk-app] #11810 = #11809 #11755
[instance] 0x0 #11810
[attach-enode] #11810 0
[end-of-instance]
[mk-app] #11809 or #4044 #3188 #10314 #3664
[mk-app] #11810 or #11755 #3664
[inst-discovered] theory-solving 0x0 basic# ; #11810
[mk-app] #11811 = #11810 #11809
[instance] 0x0 #11811
[attach-enode] #11811 0
[end-of-instance]
[mk-quant] #11810 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__19_assoc_type_impl_true_definition 4 #3666 #11809
[attach-var-names] #11810 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11811 = #3269 #11800
[instance] 0x0 #11811
[attach-enode] #11811 0
[end-of-instance]
[mk-app] #11811 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11811
[mk-app] #11812 = #11811 #11755
[instance] 0x0 #11812
[attach-enode] #11812 0
[end-of-instance]
[mk-app] #11811 or #4044 #3188 #10314 #3671
[mk-app] #11812 or #11755 #3671
[inst-discovered] theory-solving 0x0 basic# ; #11812
[mk-app] #11813 = #11812 #11811
[instance] 0x0 #11813
[attach-enode] #11813 0
[end-of-instance]
[mk-quant] #11812 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__19_assoc_type_impl_false_definition 4 #3673 #11811
[attach-var-names] #11812 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11813 = #3269 #11800
[instance] 0x0 #11813
[attach-enode] #11813 0
[end-of-instance]
[mk-app] #11813 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11813
[mk-app] #11814 = #11813 #11755
[instance] 0x0 #11814
[attach-enode] #11814 0
[end-of-instance]
[mk-app] #11813 or #4044 #3188 #10314 #3678
[mk-app] #11814 or #11755 #3678
[inst-discovered] theory-solving 0x0 basic# ; #11814
[mk-app] #11815 = #11814 #11813
[instance] 0x0 #11815
[attach-enode] #11815 0
[end-of-instance]
[mk-quant] #11814 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__19_assoc_type_impl_true_definition 4 #3680 #11813
[attach-var-names] #11814 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11815 = #3269 #11800
[instance] 0x0 #11815
[attach-enode] #11815 0
[end-of-instance]
[mk-app] #11815 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11815
[mk-app] #11816 = #11815 #11755
[instance] 0x0 #11816
[attach-enode] #11816 0
[end-of-instance]
[mk-app] #11815 or #4044 #3188 #10314 #3685
[mk-app] #11816 or #11755 #3685
[inst-discovered] theory-solving 0x0 basic# ; #11816
[mk-app] #11817 = #11816 #11815
[instance] 0x0 #11817
[attach-enode] #11817 0
[end-of-instance]
[mk-quant] #11816 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__19_assoc_type_impl_false_definition 4 #3687 #11815
[attach-var-names] #11816 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11817 = #3269 #11800
[instance] 0x0 #11817
[attach-enode] #11817 0
[end-of-instance]
[mk-app] #11817 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11817
[mk-app] #11818 = #11817 #11755
[instance] 0x0 #11818
[attach-enode] #11818 0
[end-of-instance]
[mk-app] #11817 or #4044 #3188 #10314 #3692
[mk-app] #11818 or #11755 #3692
[inst-discovered] theory-solving 0x0 basic# ; #11818
[mk-app] #11819 = #11818 #11817
[instance] 0x0 #11819
[attach-enode] #11819 0
[end-of-instance]
[mk-quant] #11818 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__10_assoc_type_impl_true_definition 4 #3694 #11817
[attach-var-names] #11818 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11819 = #3269 #11800
[instance] 0x0 #11819
[attach-enode] #11819 0
[end-of-instance]
[mk-app] #11819 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11819
[mk-app] #11820 = #11819 #11755
[instance] 0x0 #11820
[attach-enode] #11820 0
[end-of-instance]
[mk-app] #11819 or #4044 #3188 #10314 #3700
[mk-app] #11820 or #11755 #3700
[inst-discovered] theory-solving 0x0 basic# ; #11820
[mk-app] #11821 = #11820 #11819
[instance] 0x0 #11821
[attach-enode] #11821 0
[end-of-instance]
[mk-quant] #11820 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__boxed__iter__impl&__10_assoc_type_impl_false_definition 4 #3702 #11819
[attach-var-names] #11820 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11821 = #3269 #11800
[instance] 0x0 #11821
[attach-enode] #11821 0
[end-of-instance]
[mk-app] #11821 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11821
[mk-app] #11822 = #11821 #11755
[instance] 0x0 #11822
[attach-enode] #11822 0
[end-of-instance]
[mk-app] #11821 or #4044 #3188 #10314 #3707
[mk-app] #11822 or #11755 #3707
[inst-discovered] theory-solving 0x0 basic# ; #11822
[mk-app] #11823 = #11822 #11821
[instance] 0x0 #11823
[attach-enode] #11823 0
[end-of-instance]
[mk-quant] #11822 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__10_assoc_type_impl_true_definition 4 #3709 #11821
[attach-var-names] #11822 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11823 = #3269 #11800
[instance] 0x0 #11823
[attach-enode] #11823 0
[end-of-instance]
[mk-app] #11823 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11823
[mk-app] #11824 = #11823 #11755
[instance] 0x0 #11824
[attach-enode] #11824 0
[end-of-instance]
[mk-app] #11823 or #4044 #3188 #10314 #3714
[mk-app] #11824 or #11755 #3714
[inst-discovered] theory-solving 0x0 basic# ; #11824
[mk-app] #11825 = #11824 #11823
[instance] 0x0 #11825
[attach-enode] #11825 0
[end-of-instance]
[mk-quant] #11824 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__boxed__iter__impl&__10_assoc_type_impl_false_definition 4 #3716 #11823
[attach-var-names] #11824 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11825 = #3269 #11800
[instance] 0x0 #11825
[attach-enode] #11825 0
[end-of-instance]
[mk-app] #11825 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11825
[mk-app] #11826 = #11825 #11755
[instance] 0x0 #11826
[attach-enode] #11826 0
[end-of-instance]
[mk-app] #11825 or #4044 #3188 #10314 #3721
[mk-app] #11826 or #11755 #3721
[inst-discovered] theory-solving 0x0 basic# ; #11826
[mk-app] #11827 = #11826 #11825
[instance] 0x0 #11827
[attach-enode] #11827 0
[end-of-instance]
[mk-quant] #11826 internal_proj____core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__17_assoc_type_impl_true_definition 4 #3723 #11825
[attach-var-names] #11826 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11827 = #3269 #11800
[instance] 0x0 #11827
[attach-enode] #11827 0
[end-of-instance]
[mk-app] #11827 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11827
[mk-app] #11828 = #11827 #11755
[instance] 0x0 #11828
[attach-enode] #11828 0
[end-of-instance]
[mk-app] #11827 or #4044 #3188 #10314 #3728
[mk-app] #11828 or #11755 #3728
[inst-discovered] theory-solving 0x0 basic# ; #11828
[mk-app] #11829 = #11828 #11827
[instance] 0x0 #11829
[attach-enode] #11829 0
[end-of-instance]
[mk-quant] #11828 internal_proj__core!iter.traits.collect.IntoIterator./Item_alloc__vec__impl&__17_assoc_type_impl_false_definition 4 #3730 #11827
[attach-var-names] #11828 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11829 = #3269 #11800
[instance] 0x0 #11829
[attach-enode] #11829 0
[end-of-instance]
[mk-app] #11829 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11829
[mk-app] #11830 = #11829 #11755
[instance] 0x0 #11830
[attach-enode] #11830 0
[end-of-instance]
[mk-app] #11829 or #4044 #3188 #10314 #3735
[mk-app] #11830 or #11755 #3735
[inst-discovered] theory-solving 0x0 basic# ; #11830
[mk-app] #11831 = #11830 #11829
[instance] 0x0 #11831
[attach-enode] #11831 0
[end-of-instance]
[mk-quant] #11830 internal_proj____core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__17_assoc_type_impl_true_definition 4 #3737 #11829
[attach-var-names] #11830 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #4044 #3188 #10314
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11831 = #3269 #11800
[instance] 0x0 #11831
[attach-enode] #11831 0
[end-of-instance]
[mk-app] #11831 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11831
[mk-app] #11832 = #11831 #11755
[instance] 0x0 #11832
[attach-enode] #11832 0
[end-of-instance]
[mk-app] #11831 or #4044 #3188 #10314 #3742
[mk-app] #11832 or #11755 #3742
[inst-discovered] theory-solving 0x0 basic# ; #11832
[mk-app] #11833 = #11832 #11831
[instance] 0x0 #11833
[attach-enode] #11833 0
[end-of-instance]
[mk-quant] #11832 internal_proj__core!iter.traits.collect.IntoIterator./IntoIter_alloc__vec__impl&__17_assoc_type_impl_false_definition 4 #3744 #11831
[attach-var-names] #11832 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11755 or #3188 #3087
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3748
[mk-app] #11833 = #3748 #11800
[instance] 0x0 #11833
[attach-enode] #11833 0
[end-of-instance]
[mk-app] #11833 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11833
[mk-app] #11834 = #11833 #11755
[instance] 0x0 #11834
[attach-enode] #11834 0
[end-of-instance]
[mk-app] #11833 or #3188 #3087 #3751
[mk-app] #11834 or #11755 #3751
[inst-discovered] theory-solving 0x0 basic# ; #11834
[mk-app] #11835 = #11834 #11833
[instance] 0x0 #11835
[attach-enode] #11835 0
[end-of-instance]
[mk-quant] #11834 internal_proj____core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__6_assoc_type_impl_true_definition 2 #3753 #11833
[attach-var-names] #11834 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11755 or #3188 #3087
[mk-app] #11800 not #11755
[inst-discovered] theory-solving 0x0 basic# ; #3748
[mk-app] #11835 = #3748 #11800
[instance] 0x0 #11835
[attach-enode] #11835 0
[end-of-instance]
[mk-app] #11835 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #11835
[mk-app] #11836 = #11835 #11755
[instance] 0x0 #11836
[attach-enode] #11836 0
[end-of-instance]
[mk-app] #11835 or #3188 #3087 #3759
[mk-app] #11836 or #11755 #3759
[inst-discovered] theory-solving 0x0 basic# ; #11836
[mk-app] #11837 = #11836 #11835
[instance] 0x0 #11837
[attach-enode] #11837 0
[end-of-instance]
[mk-quant] #11836 internal_proj__core!iter.traits.iterator.Iterator./Item_core__iter__range__impl&__6_assoc_type_impl_false_definition 2 #3761 #11835
[attach-var-names] #11836 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11755 not #3807
[mk-app] #11800 or #3188 #11755 #10314
[mk-app] #11837 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #3808
[mk-app] #11838 = #3808 #11837
[instance] 0x0 #11838
[attach-enode] #11838 0
[end-of-instance]
[mk-app] #11838 not #11837
[inst-discovered] theory-solving 0x0 basic# ; #11838
[mk-app] #11839 = #11838 #11800
[instance] 0x0 #11839
[attach-enode] #11839 0
[end-of-instance]
[mk-app] #11838 or #3188 #11755 #10314 #3811
[mk-app] #11839 or #11800 #3811
[inst-discovered] theory-solving 0x0 basic# ; #11839
[mk-app] #11840 = #11839 #11838
[instance] 0x0 #11840
[attach-enode] #11840 0
[end-of-instance]
[mk-quant] #11839 internal_proj____core!iter.traits.iterator.Iterator./Item_alloc__boxed__iter__impl&__0_assoc_type_impl_true_definition 4 #3813 #11838
[attach-var-names] #11839 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11800 or #3188 #11755 #10314
[mk-app] #11837 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #3808
[mk-app] #11840 = #3808 #11837
[instance] 0x0 #11840
[attach-enode] #11840 0
[end-of-instance]
[mk-app] #11840 not #11837
[inst-discovered] theory-solving 0x0 basic# ; #11840
[mk-app] #11841 = #11840 #11800
[instance] 0x0 #11841
[attach-enode] #11841 0
[end-of-instance]
[mk-app] #11840 or #3188 #11755 #10314 #3820
[mk-app] #11841 or #11800 #3820
[inst-discovered] theory-solving 0x0 basic# ; #11841
[mk-app] #11842 = #11841 #11840
[instance] 0x0 #11842
[attach-enode] #11842 0
[end-of-instance]
[mk-quant] #11841 internal_proj__core!iter.traits.iterator.Iterator./Item_alloc__boxed__iter__impl&__0_assoc_type_impl_false_definition 4 #3822 #11840
[attach-var-names] #11841 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #11800 or #4044 #3188 #10314
[mk-app] #11837 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11842 = #3269 #11837
[instance] 0x0 #11842
[attach-enode] #11842 0
[end-of-instance]
[mk-app] #11842 not #11837
[inst-discovered] theory-solving 0x0 basic# ; #11842
[mk-app] #11843 = #11842 #11800
[instance] 0x0 #11843
[attach-enode] #11843 0
[end-of-instance]
[mk-app] #11842 or #4044 #3188 #10314 #3827
[mk-app] #11843 or #11800 #3827
[inst-discovered] theory-solving 0x0 basic# ; #11843
[mk-app] #11844 = #11843 #11842
[instance] 0x0 #11844
[attach-enode] #11844 0
[end-of-instance]
[mk-quant] #11843 internal_proj____core!iter.traits.iterator.Iterator./Item_alloc__vec__into_iter__impl&__6_assoc_type_impl_true_definition 4 #3829 #11842
[attach-var-names] #11843 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11800 or #4044 #3188 #10314
[mk-app] #11837 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #11844 = #3269 #11837
[instance] 0x0 #11844
[attach-enode] #11844 0
[end-of-instance]
[mk-app] #11844 not #11837
[inst-discovered] theory-solving 0x0 basic# ; #11844
[mk-app] #11845 = #11844 #11800
[instance] 0x0 #11845
[attach-enode] #11845 0
[end-of-instance]
[mk-app] #11844 or #4044 #3188 #10314 #3834
[mk-app] #11845 or #11800 #3834
[inst-discovered] theory-solving 0x0 basic# ; #11845
[mk-app] #11846 = #11845 #11844
[instance] 0x0 #11846
[attach-enode] #11846 0
[end-of-instance]
[mk-quant] #11845 internal_proj__core!iter.traits.iterator.Iterator./Item_alloc__vec__into_iter__impl&__6_assoc_type_impl_false_definition 4 #3836 #11844
[attach-var-names] #11845 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #11800 or #3188 #3087
[mk-app] #11837 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #3748
[mk-app] #11846 = #3748 #11837
[instance] 0x0 #11846
[attach-enode] #11846 0
[end-of-instance]
[mk-app] #11846 not #11837
[inst-discovered] theory-solving 0x0 basic# ; #11846
[mk-app] #11847 = #11846 #11800
[instance] 0x0 #11847
[attach-enode] #11847 0
[end-of-instance]
[mk-app] #11846 or #3188 #3087 #3861
[mk-app] #11847 or #11800 #3861
[inst-discovered] theory-solving 0x0 basic# ; #11847
[mk-app] #11848 = #11847 #11846
[instance] 0x0 #11848
[attach-enode] #11848 0
[end-of-instance]
[mk-quant] #11847 internal_proj____core!ops.function.FnOnce./Output_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_assoc_type_impl_true_definition 2 #3863 #11846
[attach-var-names] #11847 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11800 or #3188 #3087
[mk-app] #11837 not #11800
[inst-discovered] theory-solving 0x0 basic# ; #3748
[mk-app] #11848 = #3748 #11837
[instance] 0x0 #11848
[attach-enode] #11848 0
[end-of-instance]
[mk-app] #11848 not #11837
[inst-discovered] theory-solving 0x0 basic# ; #11848
[mk-app] #11849 = #11848 #11800
[instance] 0x0 #11849
[attach-enode] #11849 0
[end-of-instance]
[mk-app] #11848 or #3188 #3087 #3868
[mk-app] #11849 or #11800 #3868
[inst-discovered] theory-solving 0x0 basic# ; #11849
[mk-app] #11850 = #11849 #11848
[instance] 0x0 #11850
[attach-enode] #11850 0
[end-of-instance]
[mk-quant] #11849 internal_proj__core!ops.function.FnOnce./Output_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_assoc_type_impl_false_definition 2 #3870 #11848
[attach-var-names] #11849 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11800 not #514
[mk-app] #11837 or #11800 #3896
[mk-app] #11850 not #11837
[inst-discovered] theory-solving 0x0 basic# ; #3900
[mk-app] #11851 = #3900 #11850
[instance] 0x0 #11851
[attach-enode] #11851 0
[end-of-instance]
[mk-app] #11851 or #3901 #11850
[mk-app] #11852 = #3885 #11851
[mk-quant] #11853 internal_req__vstd!seq.Seq.index._definition 4 #3892 #11852
[attach-var-names] #11853 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11854 not #3894
[mk-app] #11855 or #11854 #192
[mk-app] #11856 not #11855
[inst-discovered] theory-solving 0x0 basic# ; #3895
[mk-app] #11857 = #3895 #11856
[instance] 0x0 #11857
[attach-enode] #11857 0
[end-of-instance]
[mk-app] #11857 not #11856
[inst-discovered] theory-solving 0x0 basic# ; #11857
[mk-app] #11858 = #11857 #11855
[instance] 0x0 #11858
[attach-enode] #11858 0
[end-of-instance]
[mk-app] #11857 or #11854 #192 #3906
[mk-app] #11858 or #11855 #3906
[inst-discovered] theory-solving 0x0 basic# ; #11858
[mk-app] #11859 = #11858 #11857
[instance] 0x0 #11859
[attach-enode] #11859 0
[end-of-instance]
[mk-quant] #11858 internal_vstd!seq.Seq.index.?_pre_post_definition 4 #3908 #11857
[attach-var-names] #11858 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #3900
[mk-app] #11855 = #3900 #11850
[instance] 0x0 #11855
[attach-enode] #11855 0
[end-of-instance]
[mk-app] #11855 or #3921 #11850
[mk-app] #11856 = #3913 #11855
[mk-quant] #11859 internal_req__vstd!seq.impl&__2.spec_index._definition 4 #3917 #11856
[attach-var-names] #11859 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11860 or #11854 #192
[mk-app] #11861 not #11860
[inst-discovered] theory-solving 0x0 basic# ; #3895
[mk-app] #11862 = #3895 #11861
[instance] 0x0 #11862
[attach-enode] #11862 0
[end-of-instance]
[mk-app] #11862 not #11861
[inst-discovered] theory-solving 0x0 basic# ; #11862
[mk-app] #11863 = #11862 #11860
[instance] 0x0 #11863
[attach-enode] #11863 0
[end-of-instance]
[mk-app] #11862 or #11854 #192 #3932
[mk-app] #11863 or #11860 #3932
[inst-discovered] theory-solving 0x0 basic# ; #11863
[mk-app] #11864 = #11863 #11862
[instance] 0x0 #11864
[attach-enode] #11864 0
[end-of-instance]
[mk-quant] #11863 internal_vstd!seq.impl&__2.spec_index.?_pre_post_definition 4 #3927 #11862
[attach-var-names] #11863 (|i!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11860 or #11854 #192
[mk-app] #11861 not #11860
[inst-discovered] theory-solving 0x0 basic# ; #3895
[mk-app] #11864 = #3895 #11861
[instance] 0x0 #11864
[attach-enode] #11864 0
[end-of-instance]
[mk-app] #11864 not #11861
[inst-discovered] theory-solving 0x0 basic# ; #11864
[mk-app] #11865 = #11864 #11860
[instance] 0x0 #11865
[attach-enode] #11865 0
[end-of-instance]
[mk-app] #11864 or #4044 #11800 #3896
[mk-app] #11865 not #11864
[inst-discovered] theory-solving 0x0 basic# ; #3948
[mk-app] #11866 = #3948 #11865
[instance] 0x0 #11866
[attach-enode] #11866 0
[end-of-instance]
[mk-app] #11866 not #11865
[inst-discovered] theory-solving 0x0 basic# ; #11866
[mk-app] #11867 = #11866 #11864
[instance] 0x0 #11867
[attach-enode] #11867 0
[end-of-instance]
[mk-app] #11865 or #11854 #192 #4044 #11800 #3896 #3940
[mk-app] #11866 or #11860 #11864 #3940
[inst-discovered] theory-solving 0x0 basic# ; #11866
[mk-app] #11867 = #11866 #11865
[instance] 0x0 #11867
[attach-enode] #11867 0
[end-of-instance]
[mk-quant] #11864 user_vstd__seq__lemma_seq_index_decreases_0 4 #3943 #11865
[attach-var-names] #11864 (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11860 or #3946 #11864
[mk-app] #11861 not #3968
[mk-app] #11866 or #11436 #7667 #11861
[mk-app] #11867 not #11866
[inst-discovered] theory-solving 0x0 basic# ; #3969
[mk-app] #11868 = #3969 #11867
[instance] 0x0 #11868
[attach-enode] #11868 0
[end-of-instance]
[mk-app] #11868 or #3970 #11867
[mk-app] #11869 = #3952 #11868
[mk-quant] #11870 internal_req__vstd!seq.Seq.subrange._definition 5 #3961 #11869
[attach-var-names] #11870 (|end_exclusive!| ; |Poly|) (|start_inclusive!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11871 not #3975
[mk-app] #11872 not #3976
[mk-app] #11873 or #11871 #11872 #192
[mk-app] #11874 not #11873
[inst-discovered] theory-solving 0x0 basic# ; #3977
[mk-app] #11875 = #3977 #11874
[instance] 0x0 #11875
[attach-enode] #11875 0
[end-of-instance]
[mk-app] #11875 not #11874
[inst-discovered] theory-solving 0x0 basic# ; #11875
[mk-app] #11876 = #11875 #11873
[instance] 0x0 #11876
[attach-enode] #11876 0
[end-of-instance]
[mk-app] #11875 or #11871 #11872 #192 #3979
[mk-app] #11876 or #11873 #3979
[inst-discovered] theory-solving 0x0 basic# ; #11876
[mk-app] #11877 = #11876 #11875
[instance] 0x0 #11877
[attach-enode] #11877 0
[end-of-instance]
[mk-quant] #11876 internal_vstd!seq.Seq.subrange.?_pre_post_definition 5 #3981 #11875
[attach-var-names] #11876 (|end_exclusive!| ; |Poly|) (|start_inclusive!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11873 or #11871 #11872 #192
[mk-app] #11874 not #11873
[inst-discovered] theory-solving 0x0 basic# ; #3977
[mk-app] #11877 = #3977 #11874
[instance] 0x0 #11877
[attach-enode] #11877 0
[end-of-instance]
[mk-app] #11877 not #11874
[inst-discovered] theory-solving 0x0 basic# ; #11877
[mk-app] #11878 = #11877 #11873
[instance] 0x0 #11878
[attach-enode] #11878 0
[end-of-instance]
[mk-app] #11877 or #4424 #11436 #7667 #11861 #4003
[mk-app] #11878 not #11877
[inst-discovered] theory-solving 0x0 basic# ; #4005
[mk-app] #11879 = #4005 #11878
[instance] 0x0 #11879
[attach-enode] #11879 0
[end-of-instance]
[mk-app] #11879 not #11878
[inst-discovered] theory-solving 0x0 basic# ; #11879
[mk-app] #11880 = #11879 #11877
[instance] 0x0 #11880
[attach-enode] #11880 0
[end-of-instance]
[mk-app] #11878 or #11871 #11872 #192 #4424 #11436 #7667 #11861 #4003 #3993
[mk-app] #11879 or #11873 #11877 #3993
[inst-discovered] theory-solving 0x0 basic# ; #11879
[mk-app] #11880 = #11879 #11878
[instance] 0x0 #11880
[attach-enode] #11880 0
[end-of-instance]
[mk-quant] #11877 user_vstd__seq__lemma_seq_subrange_decreases_0 5 #3996 #11878
[attach-var-names] #11877 (|j!| ; |Poly|) (|i!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11873 or #3999 #11877
[mk-app] #11874 not #4024
[mk-app] #11879 not #4026
[mk-app] #11880 or #11874 #11879
[mk-app] #11881 not #11880
[inst-discovered] theory-solving 0x0 basic# ; #4027
[mk-app] #11882 = #4027 #11881
[instance] 0x0 #11882
[attach-enode] #11882 0
[end-of-instance]
[mk-app] #11882 not #11881
[inst-discovered] theory-solving 0x0 basic# ; #11882
[mk-app] #11883 = #11882 #11880
[instance] 0x0 #11883
[attach-enode] #11883 0
[end-of-instance]
[mk-app] #11882 or #11874 #11879 #4029
[mk-app] #11883 or #11880 #4029
[inst-discovered] theory-solving 0x0 basic# ; #11883
[mk-app] #11884 = #11883 #11882
[instance] 0x0 #11884
[attach-enode] #11884 0
[end-of-instance]
[mk-quant] #11883 internal_vstd!seq.Seq.new.?_pre_post_definition 4 #4031 #11882
[attach-var-names] #11883 (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11880 or #11874 #11879
[mk-app] #11881 not #11880
[inst-discovered] theory-solving 0x0 basic# ; #4027
[mk-app] #11884 = #4027 #11881
[instance] 0x0 #11884
[attach-enode] #11884 0
[end-of-instance]
[mk-app] #11884 not #11881
[inst-discovered] theory-solving 0x0 basic# ; #11884
[mk-app] #11885 = #11884 #11880
[instance] 0x0 #11885
[attach-enode] #11885 0
[end-of-instance]
[mk-app] #11884 or #11874 #11879 #4044 #4038
[mk-app] #11885 or #11880 #4044 #4038
[inst-discovered] theory-solving 0x0 basic# ; #11885
[mk-app] #11886 = #11885 #11884
[instance] 0x0 #11886
[attach-enode] #11886 0
[end-of-instance]
[mk-quant] #11885 user_vstd__seq__lemma_seq_new_len_0 4 #4041 #11884
[attach-var-names] #11885 (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11880 or #4047 #11885
[mk-app] #11881 not #4050
[mk-app] #11886 not #4052
[mk-app] #11887 or #11881 #11886 #192
[mk-app] #11888 not #11887
[inst-discovered] theory-solving 0x0 basic# ; #4053
[mk-app] #11889 = #4053 #11888
[instance] 0x0 #11889
[attach-enode] #11889 0
[end-of-instance]
[mk-app] #11889 not #11888
[inst-discovered] theory-solving 0x0 basic# ; #11889
[mk-app] #11890 = #11889 #11887
[instance] 0x0 #11890
[attach-enode] #11890 0
[end-of-instance]
[mk-app] #11889 or #4424 #11800 #4067
[mk-app] #11890 not #11889
[inst-discovered] theory-solving 0x0 basic# ; #4071
[mk-app] #11891 = #4071 #11890
[instance] 0x0 #11891
[attach-enode] #11891 0
[end-of-instance]
[mk-app] #11891 not #11890
[inst-discovered] theory-solving 0x0 basic# ; #11891
[mk-app] #11892 = #11891 #11889
[instance] 0x0 #11892
[attach-enode] #11892 0
[end-of-instance]
[mk-app] #11890 or #11881 #11886 #192 #4424 #11800 #4067 #4059
[mk-app] #11891 or #11887 #11889 #4059
[inst-discovered] theory-solving 0x0 basic# ; #11891
[mk-app] #11892 = #11891 #11890
[instance] 0x0 #11892
[attach-enode] #11892 0
[end-of-instance]
[mk-quant] #11889 user_vstd__seq__lemma_seq_new_index_0 5 #4062 #11890
[attach-var-names] #11889 (|i!| ; |Poly|) (|f!| ; |Poly|) (|len!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11887 or #4065 #11889
[mk-app] #11888 or #11854 #11617
[mk-app] #11891 not #11888
[inst-discovered] theory-solving 0x0 basic# ; #4076
[mk-app] #11892 = #4076 #11891
[instance] 0x0 #11892
[attach-enode] #11892 0
[end-of-instance]
[mk-app] #11892 not #11891
[inst-discovered] theory-solving 0x0 basic# ; #11892
[mk-app] #11893 = #11892 #11888
[instance] 0x0 #11893
[attach-enode] #11893 0
[end-of-instance]
[mk-app] #11892 or #11854 #11617 #4078
[mk-app] #11893 or #11888 #4078
[inst-discovered] theory-solving 0x0 basic# ; #11893
[mk-app] #11894 = #11893 #11892
[instance] 0x0 #11894
[attach-enode] #11894 0
[end-of-instance]
[mk-quant] #11893 internal_vstd!seq.Seq.push.?_pre_post_definition 4 #4080 #11892
[attach-var-names] #11893 (|a!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11888 or #11854 #11617
[mk-app] #11891 not #11888
[inst-discovered] theory-solving 0x0 basic# ; #4076
[mk-app] #11894 = #4076 #11891
[instance] 0x0 #11894
[attach-enode] #11894 0
[end-of-instance]
[mk-app] #11894 not #11891
[inst-discovered] theory-solving 0x0 basic# ; #11894
[mk-app] #11895 = #11894 #11888
[instance] 0x0 #11895
[attach-enode] #11895 0
[end-of-instance]
[mk-app] #11894 or #11854 #11617 #4044 #4089
[mk-app] #11895 or #11888 #4044 #4089
[inst-discovered] theory-solving 0x0 basic# ; #11895
[mk-app] #11896 = #11895 #11894
[instance] 0x0 #11896
[attach-enode] #11896 0
[end-of-instance]
[mk-quant] #11895 user_vstd__seq__lemma_seq_push_len_0 4 #4092 #11894
[attach-var-names] #11895 (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11888 or #4097 #11895
[mk-app] #11891 not #4100
[mk-app] #11896 or #11871 #11891 #192
[mk-app] #11897 not #11896
[inst-discovered] theory-solving 0x0 basic# ; #4101
[mk-app] #11898 = #4101 #11897
[instance] 0x0 #11898
[attach-enode] #11898 0
[end-of-instance]
[mk-app] #11898 not #11897
[inst-discovered] theory-solving 0x0 basic# ; #11898
[mk-app] #11899 = #11898 #11896
[instance] 0x0 #11899
[attach-enode] #11899 0
[end-of-instance]
[mk-app] #11898 not #4102
[mk-app] #11899 or #4424 #11898
[mk-app] #11900 not #11899
[inst-discovered] theory-solving 0x0 basic# ; #4103
[mk-app] #11901 = #4103 #11900
[instance] 0x0 #11901
[attach-enode] #11901 0
[end-of-instance]
[mk-app] #11901 not #11900
[inst-discovered] theory-solving 0x0 basic# ; #11901
[mk-app] #11902 = #11901 #11899
[instance] 0x0 #11902
[attach-enode] #11902 0
[end-of-instance]
[mk-app] #11901 or #11871 #11891 #192 #4424 #11898 #4106
[mk-app] #11902 or #11896 #11899 #4106
[inst-discovered] theory-solving 0x0 basic# ; #11902
[mk-app] #11903 = #11902 #11901
[instance] 0x0 #11903
[attach-enode] #11903 0
[end-of-instance]
[mk-quant] #11902 user_vstd__seq__lemma_seq_push_index_same_0 5 #4109 #11901
[attach-var-names] #11902 (|i!| ; |Poly|) (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11899 or #4116 #11902
[mk-app] #11900 or #11871 #11891 #192
[mk-app] #11896 not #11900
[inst-discovered] theory-solving 0x0 basic# ; #4101
[mk-app] #11897 = #4101 #11896
[instance] 0x0 #11897
[attach-enode] #11897 0
[end-of-instance]
[mk-app] #11897 not #11896
[inst-discovered] theory-solving 0x0 basic# ; #11897
[mk-app] #11903 = #11897 #11900
[instance] 0x0 #11903
[attach-enode] #11903 0
[end-of-instance]
[mk-app] #11897 or #4424 #4129
[mk-app] #11903 not #11897
[inst-discovered] theory-solving 0x0 basic# ; #4131
[mk-app] #11904 = #4131 #11903
[instance] 0x0 #11904
[attach-enode] #11904 0
[end-of-instance]
[mk-app] #11904 not #11903
[inst-discovered] theory-solving 0x0 basic# ; #11904
[mk-app] #11905 = #11904 #11897
[instance] 0x0 #11905
[attach-enode] #11905 0
[end-of-instance]
[mk-app] #11903 or #11871 #11891 #192 #4424 #4129 #4122
[mk-app] #11904 or #11900 #11897 #4122
[inst-discovered] theory-solving 0x0 basic# ; #11904
[mk-app] #11905 = #11904 #11903
[instance] 0x0 #11905
[attach-enode] #11905 0
[end-of-instance]
[mk-quant] #11904 user_vstd__seq__lemma_seq_push_index_different_0 5 #4109 #11903
[attach-var-names] #11904 (|i!| ; |Poly|) (|a!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11897 or #4127 #11904
[mk-app] #11900 not #4136
[mk-app] #11896 or #11854 #11900
[mk-app] #11905 not #11896
[inst-discovered] theory-solving 0x0 basic# ; #4137
[mk-app] #11906 = #4137 #11905
[instance] 0x0 #11906
[attach-enode] #11906 0
[end-of-instance]
[mk-app] #11906 not #11905
[inst-discovered] theory-solving 0x0 basic# ; #11906
[mk-app] #11907 = #11906 #11896
[instance] 0x0 #11907
[attach-enode] #11907 0
[end-of-instance]
[mk-app] #11906 or #11800 #4129
[mk-app] #11907 not #11906
[inst-discovered] theory-solving 0x0 basic# ; #4158
[mk-app] #11908 = #4158 #11907
[instance] 0x0 #11908
[attach-enode] #11908 0
[end-of-instance]
[mk-app] #11908 not #11907
[inst-discovered] theory-solving 0x0 basic# ; #11908
[mk-app] #11909 = #11908 #11906
[instance] 0x0 #11909
[attach-enode] #11909 0
[end-of-instance]
[mk-app] #11907 or #192 #11800 #4129 #4143
[mk-app] #11908 or #192 #11906 #4143
[inst-discovered] theory-solving 0x0 basic# ; #11908
[mk-app] #11909 = #11908 #11907
[instance] 0x0 #11909
[attach-enode] #11909 0
[end-of-instance]
[mk-quant] #11908 user_vstd__seq__lemma_seq_ext_equal_0 1 #4146 #4147 #11907
[attach-var-names] #11908 (|i$| ; |Poly|)
[mk-app] #11906 not #11908
[mk-app] #11909 or #11135 #11906
[mk-app] #11910 not #11909
[mk-app] #11911 and #4140 #11908
[inst-discovered] theory-solving 0x0 basic# ; #11911
[mk-app] #11912 = #11911 #11910
[instance] 0x0 #11912
[attach-enode] #11912 0
[end-of-instance]
[mk-app] #11911 or #11134 #11910
[mk-app] #11912 not #11150
[mk-app] #11913 or #11912 #11171
[mk-app] #11914 not #11913
[inst-discovered] theory-solving 0x0 basic# ; #11173
[mk-app] #11915 = #11173 #11914
[instance] 0x0 #11915
[attach-enode] #11915 0
[end-of-instance]
[mk-app] #11915 not #11914
[inst-discovered] theory-solving 0x0 basic# ; #11915
[mk-app] #11916 = #11915 #11913
[instance] 0x0 #11916
[attach-enode] #11916 0
[end-of-instance]
[mk-app] #11914 or #11148 #11912 #11171 #11158
[mk-app] #11915 or #11148 #11913 #11158
[inst-discovered] theory-solving 0x0 basic# ; #11915
[mk-app] #11916 = #11915 #11914
[instance] 0x0 #11916
[attach-enode] #11916 0
[end-of-instance]
[mk-app] #11913 not #11914
[mk-app] #11915 or #4138 #11135 #11913
[inst-discovered] theory-solving 0x0 basic# ; #11915
[mk-app] #11916 = #11915 #11915
[instance] 0x0 #11916
[attach-enode] #11916 0
[end-of-instance]
[mk-app] #11916 not #11911
[mk-app] #11917 not #11915
[mk-app] #11918 or #11916 #11917
[mk-app] #11919 not #11918
[mk-app] #11920 and #11911 #11915
[inst-discovered] theory-solving 0x0 basic# ; #11920
[mk-app] #11921 = #11920 #11919
[instance] 0x0 #11921
[attach-enode] #11921 0
[end-of-instance]
[mk-app] #11920 or #11854 #11900 #4044 #11919
[mk-app] #11921 or #11896 #4044 #11919
[inst-discovered] theory-solving 0x0 basic# ; #11921
[mk-app] #11922 = #11921 #11920
[instance] 0x0 #11922
[attach-enode] #11922 0
[end-of-instance]
[mk-quant] #11921 user_vstd__seq__lemma_seq_ext_equal_1 4 #4153 #11920
[attach-var-names] #11921 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11896 or #4165 #11921
[mk-app] #11905 or #11854 #11900
[mk-app] #11922 not #11905
[inst-discovered] theory-solving 0x0 basic# ; #4137
[mk-app] #11923 = #4137 #11922
[instance] 0x0 #11923
[attach-enode] #11923 0
[end-of-instance]
[mk-app] #11923 not #11922
[inst-discovered] theory-solving 0x0 basic# ; #11923
[mk-app] #11924 = #11923 #11905
[instance] 0x0 #11924
[attach-enode] #11924 0
[end-of-instance]
[mk-app] #11923 or #11800 #4129
[mk-app] #11924 not #11923
[inst-discovered] theory-solving 0x0 basic# ; #4158
[mk-app] #11925 = #4158 #11924
[instance] 0x0 #11925
[attach-enode] #11925 0
[end-of-instance]
[mk-app] #11925 not #11924
[inst-discovered] theory-solving 0x0 basic# ; #11925
[mk-app] #11926 = #11925 #11923
[instance] 0x0 #11926
[attach-enode] #11926 0
[end-of-instance]
[mk-app] #11924 or #192 #11800 #4129 #4169
[mk-app] #11925 or #192 #11923 #4169
[inst-discovered] theory-solving 0x0 basic# ; #11925
[mk-app] #11926 = #11925 #11924
[instance] 0x0 #11926
[attach-enode] #11926 0
[end-of-instance]
[mk-quant] #11925 user_vstd__seq__lemma_seq_ext_equal_deep_0 1 #4146 #4147 #11924
[attach-var-names] #11925 (|i$| ; |Poly|)
[mk-app] #11923 not #11925
[mk-app] #11926 or #11135 #11923
[mk-app] #11927 not #11926
[mk-app] #11928 and #4140 #11925
[inst-discovered] theory-solving 0x0 basic# ; #11928
[mk-app] #11929 = #11928 #11927
[instance] 0x0 #11929
[attach-enode] #11929 0
[end-of-instance]
[mk-app] #11928 or #11163 #11927
[mk-app] #11929 not #11177
[mk-app] #11930 or #11929 #11202
[mk-app] #11931 not #11930
[inst-discovered] theory-solving 0x0 basic# ; #11204
[mk-app] #11932 = #11204 #11931
[instance] 0x0 #11932
[attach-enode] #11932 0
[end-of-instance]
[mk-app] #11932 not #11931
[inst-discovered] theory-solving 0x0 basic# ; #11932
[mk-app] #11933 = #11932 #11930
[instance] 0x0 #11933
[attach-enode] #11933 0
[end-of-instance]
[mk-app] #11931 or #11166 #11929 #11202 #11189
[mk-app] #11932 or #11166 #11930 #11189
[inst-discovered] theory-solving 0x0 basic# ; #11932
[mk-app] #11933 = #11932 #11931
[instance] 0x0 #11933
[attach-enode] #11933 0
[end-of-instance]
[mk-app] #11930 not #11931
[mk-app] #11932 or #4168 #11135 #11930
[inst-discovered] theory-solving 0x0 basic# ; #11932
[mk-app] #11933 = #11932 #11932
[instance] 0x0 #11933
[attach-enode] #11933 0
[end-of-instance]
[mk-app] #11933 not #11928
[mk-app] #11934 not #11932
[mk-app] #11935 or #11933 #11934
[mk-app] #11936 not #11935
[mk-app] #11937 and #11928 #11932
[inst-discovered] theory-solving 0x0 basic# ; #11937
[mk-app] #11938 = #11937 #11936
[instance] 0x0 #11938
[attach-enode] #11938 0
[end-of-instance]
[mk-app] #11937 or #11854 #11900 #4044 #11936
[mk-app] #11938 or #11905 #4044 #11936
[inst-discovered] theory-solving 0x0 basic# ; #11938
[mk-app] #11939 = #11938 #11937
[instance] 0x0 #11939
[attach-enode] #11939 0
[end-of-instance]
[mk-quant] #11938 user_vstd__seq__lemma_seq_ext_equal_deep_1 4 #4177 #11937
[attach-var-names] #11938 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11905 or #4186 #11938
[mk-app] #11922 or #11871 #11872 #192
[mk-app] #11939 not #11922
[inst-discovered] theory-solving 0x0 basic# ; #3977
[mk-app] #11940 = #3977 #11939
[instance] 0x0 #11940
[attach-enode] #11940 0
[end-of-instance]
[mk-app] #11940 not #11939
[inst-discovered] theory-solving 0x0 basic# ; #11940
[mk-app] #11941 = #11940 #11922
[instance] 0x0 #11941
[attach-enode] #11941 0
[end-of-instance]
[mk-app] #11940 or #4424 #11436 #7667 #11861
[mk-app] #11941 not #11940
[inst-discovered] theory-solving 0x0 basic# ; #4196
[mk-app] #11942 = #4196 #11941
[instance] 0x0 #11942
[attach-enode] #11942 0
[end-of-instance]
[mk-app] #11942 not #11941
[inst-discovered] theory-solving 0x0 basic# ; #11942
[mk-app] #11943 = #11942 #11940
[instance] 0x0 #11943
[attach-enode] #11943 0
[end-of-instance]
[mk-app] #11941 or #11871 #11872 #192 #4424 #11436 #7667 #11861 #4190
[mk-app] #11942 or #11922 #11940 #4190
[inst-discovered] theory-solving 0x0 basic# ; #11942
[mk-app] #11943 = #11942 #11941
[instance] 0x0 #11943
[attach-enode] #11943 0
[end-of-instance]
[mk-quant] #11940 user_vstd__seq__lemma_seq_subrange_len_0 5 #4193 #11941
[attach-var-names] #11940 (|k!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11922 or #4200 #11940
[mk-app] #11939 not #4204
[mk-app] #11942 not #4205
[mk-app] #11943 or #11939 #11942 #11872 #192
[mk-app] #11944 not #11943
[inst-discovered] theory-solving 0x0 basic# ; #4206
[mk-app] #11945 = #4206 #11944
[instance] 0x0 #11945
[attach-enode] #11945 0
[end-of-instance]
[mk-app] #11945 not #11944
[inst-discovered] theory-solving 0x0 basic# ; #11945
[mk-app] #11946 = #11945 #11943
[instance] 0x0 #11946
[attach-enode] #11946 0
[end-of-instance]
[mk-app] #11945 not #4229
[mk-app] #11946 not #4231
[mk-app] #11947 not #4234
[mk-app] #11948 or #11744 #11945 #11946 #11947 #11800 #4237
[mk-app] #11949 not #11948
[inst-discovered] theory-solving 0x0 basic# ; #4241
[mk-app] #11950 = #4241 #11949
[instance] 0x0 #11950
[attach-enode] #11950 0
[end-of-instance]
[mk-app] #11950 not #11949
[inst-discovered] theory-solving 0x0 basic# ; #11950
[mk-app] #11951 = #11950 #11948
[instance] 0x0 #11951
[attach-enode] #11951 0
[end-of-instance]
[mk-app] #11949 or #11939 #11942 #11872 #192 #11744 #11945 #11946 #11947 #11800 #4237 #4223
[mk-app] #11950 or #11943 #11948 #4223
[inst-discovered] theory-solving 0x0 basic# ; #11950
[mk-app] #11951 = #11950 #11949
[instance] 0x0 #11951
[attach-enode] #11951 0
[end-of-instance]
[mk-quant] #11948 user_vstd__seq__lemma_seq_subrange_index_0 6 #4226 #11949
[attach-var-names] #11948 (|i!| ; |Poly|) (|k!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11943 or #4235 #11948
[mk-app] #11944 not #4249
[mk-app] #11950 not #4250
[mk-app] #11951 or #11944 #11950 #11942 #11872 #192
[mk-app] #11952 not #11951
[inst-discovered] theory-solving 0x0 basic# ; #4251
[mk-app] #11953 = #4251 #11952
[instance] 0x0 #11953
[attach-enode] #11953 0
[end-of-instance]
[mk-app] #11953 not #11952
[inst-discovered] theory-solving 0x0 basic# ; #11953
[mk-app] #11954 = #11953 #11951
[instance] 0x0 #11954
[attach-enode] #11954 0
[end-of-instance]
[mk-app] #11953 not #4252
[mk-app] #11954 not #4285
[mk-app] #11955 not #4284
[mk-app] #11956 not #4290
[mk-app] #11957 not #4291
[mk-app] #11958 not #4294
[mk-app] #11959 or #11953 #11954 #11955 #11956 #11957 #11958 #11800 #4297 #4303
[mk-app] #11960 not #11959
[inst-discovered] theory-solving 0x0 basic# ; #4307
[mk-app] #11961 = #4307 #11960
[instance] 0x0 #11961
[attach-enode] #11961 0
[end-of-instance]
[mk-app] #11961 not #11960
[inst-discovered] theory-solving 0x0 basic# ; #11961
[mk-app] #11962 = #11961 #11959
[instance] 0x0 #11962
[attach-enode] #11962 0
[end-of-instance]
[mk-app] #11960 or #11944 #11950 #11942 #11872 #192 #11953 #11954 #11955 #11956 #11957 #11958 #11800 #4297 #4303 #4278
[mk-app] #11961 or #11951 #11959 #4278
[inst-discovered] theory-solving 0x0 basic# ; #11961
[mk-app] #11962 = #11961 #11960
[instance] 0x0 #11962
[attach-enode] #11962 0
[end-of-instance]
[mk-quant] #11959 user_vstd__seq__lemma_seq_two_subranges_index_0 7 #4281 #11960
[attach-var-names] #11959 (|i!| ; |Poly|) (|k2!| ; |Poly|) (|k1!| ; |Poly|) (|j!| ; |Poly|) (|s!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11951 or #4301 #11959
[mk-app] #11952 or #11854 #11900
[mk-app] #11961 not #11952
[inst-discovered] theory-solving 0x0 basic# ; #4137
[mk-app] #11962 = #4137 #11961
[instance] 0x0 #11962
[attach-enode] #11962 0
[end-of-instance]
[mk-app] #11962 not #11961
[inst-discovered] theory-solving 0x0 basic# ; #11962
[mk-app] #11963 = #11962 #11952
[instance] 0x0 #11963
[attach-enode] #11963 0
[end-of-instance]
[mk-app] #11962 or #11854 #11900 #4296
[mk-app] #11963 or #11952 #4296
[inst-discovered] theory-solving 0x0 basic# ; #11963
[mk-app] #11964 = #11963 #11962
[instance] 0x0 #11964
[attach-enode] #11964 0
[end-of-instance]
[mk-quant] #11963 internal_vstd!seq.Seq.add.?_pre_post_definition 4 #4313 #11962
[attach-var-names] #11963 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11952 or #11854 #11900
[mk-app] #11961 not #11952
[inst-discovered] theory-solving 0x0 basic# ; #4137
[mk-app] #11964 = #4137 #11961
[instance] 0x0 #11964
[attach-enode] #11964 0
[end-of-instance]
[mk-app] #11964 not #11961
[inst-discovered] theory-solving 0x0 basic# ; #11964
[mk-app] #11965 = #11964 #11952
[instance] 0x0 #11965
[attach-enode] #11965 0
[end-of-instance]
[mk-app] #11964 or #11854 #11900 #4044 #4321
[mk-app] #11965 or #11952 #4044 #4321
[inst-discovered] theory-solving 0x0 basic# ; #11965
[mk-app] #11966 = #11965 #11964
[instance] 0x0 #11966
[attach-enode] #11966 0
[end-of-instance]
[mk-quant] #11965 user_vstd__seq__lemma_seq_add_len_0 4 #4324 #11964
[attach-var-names] #11965 (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11952 or #4329 #11965
[mk-app] #11961 not #4332
[mk-app] #11966 or #11871 #11961 #192
[mk-app] #11967 not #11966
[inst-discovered] theory-solving 0x0 basic# ; #4333
[mk-app] #11968 = #4333 #11967
[instance] 0x0 #11968
[attach-enode] #11968 0
[end-of-instance]
[mk-app] #11968 not #11967
[inst-discovered] theory-solving 0x0 basic# ; #11968
[mk-app] #11969 = #11968 #11966
[instance] 0x0 #11969
[attach-enode] #11969 0
[end-of-instance]
[mk-app] #11968 or #4424 #4129
[mk-app] #11969 not #11968
[inst-discovered] theory-solving 0x0 basic# ; #4131
[mk-app] #11970 = #4131 #11969
[instance] 0x0 #11970
[attach-enode] #11970 0
[end-of-instance]
[mk-app] #11970 not #11969
[inst-discovered] theory-solving 0x0 basic# ; #11970
[mk-app] #11971 = #11970 #11968
[instance] 0x0 #11971
[attach-enode] #11971 0
[end-of-instance]
[mk-app] #11969 or #11871 #11961 #192 #4424 #4129 #4336
[mk-app] #11970 or #11966 #11968 #4336
[inst-discovered] theory-solving 0x0 basic# ; #11970
[mk-app] #11971 = #11970 #11969
[instance] 0x0 #11971
[attach-enode] #11971 0
[end-of-instance]
[mk-quant] #11970 user_vstd__seq__lemma_seq_add_index1_0 5 #4339 #11969
[attach-var-names] #11970 (|i!| ; |Poly|) (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11966 or #4342 #11970
[mk-app] #11967 or #11871 #11961 #192
[mk-app] #11968 not #11967
[inst-discovered] theory-solving 0x0 basic# ; #4333
[mk-app] #11971 = #4333 #11968
[instance] 0x0 #11971
[attach-enode] #11971 0
[end-of-instance]
[mk-app] #11971 not #11968
[inst-discovered] theory-solving 0x0 basic# ; #11971
[mk-app] #11972 = #11971 #11967
[instance] 0x0 #11972
[attach-enode] #11972 0
[end-of-instance]
[mk-app] #11971 or #4424 #4130 #4365
[mk-app] #11972 not #11971
[inst-discovered] theory-solving 0x0 basic# ; #4369
[mk-app] #11973 = #4369 #11972
[instance] 0x0 #11973
[attach-enode] #11973 0
[end-of-instance]
[mk-app] #11973 not #11972
[inst-discovered] theory-solving 0x0 basic# ; #11973
[mk-app] #11974 = #11973 #11971
[instance] 0x0 #11974
[attach-enode] #11974 0
[end-of-instance]
[mk-app] #11972 or #11871 #11961 #192 #4424 #4130 #4365 #4358
[mk-app] #11973 or #11967 #11971 #4358
[inst-discovered] theory-solving 0x0 basic# ; #11973
[mk-app] #11974 = #11973 #11972
[instance] 0x0 #11974
[attach-enode] #11974 0
[end-of-instance]
[mk-quant] #11971 user_vstd__seq__lemma_seq_add_index2_0 5 #4339 #11972
[attach-var-names] #11971 (|i!| ; |Poly|) (|s2!| ; |Poly|) (|s1!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11967 or #4363 #11971
[mk-app] #11968 or #11854 #11900
[mk-app] #11973 not #11968
[inst-discovered] theory-solving 0x0 basic# ; #4137
[mk-app] #11974 = #4137 #11973
[instance] 0x0 #11974
[attach-enode] #11974 0
[end-of-instance]
[mk-app] #11974 not #11973
[inst-discovered] theory-solving 0x0 basic# ; #11974
[mk-app] #11975 = #11974 #11968
[instance] 0x0 #11975
[attach-enode] #11975 0
[end-of-instance]
[mk-app] #11974 or #11854 #11900 #4382
[mk-app] #11975 or #11968 #4382
[inst-discovered] theory-solving 0x0 basic# ; #11975
[mk-app] #11976 = #11975 #11974
[instance] 0x0 #11976
[attach-enode] #11976 0
[end-of-instance]
[mk-quant] #11975 internal_vstd!seq.impl&__2.spec_add.?_pre_post_definition 4 #4377 #11974
[attach-var-names] #11975 (|rhs!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11968 or #11854 #11900
[mk-app] #11973 not #11968
[inst-discovered] theory-solving 0x0 basic# ; #4137
[mk-app] #11976 = #4137 #11973
[instance] 0x0 #11976
[attach-enode] #11976 0
[end-of-instance]
[mk-app] #11976 not #11973
[inst-discovered] theory-solving 0x0 basic# ; #11976
[mk-app] #11977 = #11976 #11968
[instance] 0x0 #11977
[attach-enode] #11977 0
[end-of-instance]
[mk-app] #11976 not #4388
[mk-app] #11977 or #4044 #11976
[mk-app] #11978 not #11977
[inst-discovered] theory-solving 0x0 basic# ; #4389
[mk-app] #11979 = #4389 #11978
[instance] 0x0 #11979
[attach-enode] #11979 0
[end-of-instance]
[mk-app] #11979 not #11978
[inst-discovered] theory-solving 0x0 basic# ; #11979
[mk-app] #11980 = #11979 #11977
[instance] 0x0 #11980
[attach-enode] #11980 0
[end-of-instance]
[mk-app] #11979 or #11854 #11900 #4044 #11976 #4390
[mk-app] #11980 or #11968 #11977 #4390
[inst-discovered] theory-solving 0x0 basic# ; #11980
[mk-app] #11981 = #11980 #11979
[instance] 0x0 #11981
[attach-enode] #11981 0
[end-of-instance]
[mk-quant] #11980 user_vstd__seq_lib__impl&%0__add_empty_left_0 4 #4313 #11979
[attach-var-names] #11980 (|b!| ; |Poly|) (|a!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11977 or #4398 #11980
[mk-app] #11978 or #11854 #11900
[mk-app] #11968 not #11978
[inst-discovered] theory-solving 0x0 basic# ; #4137
[mk-app] #11973 = #4137 #11968
[instance] 0x0 #11973
[attach-enode] #11973 0
[end-of-instance]
[mk-app] #11973 not #11968
[inst-discovered] theory-solving 0x0 basic# ; #11973
[mk-app] #11981 = #11973 #11978
[instance] 0x0 #11981
[attach-enode] #11981 0
[end-of-instance]
[mk-app] #11973 not #4401
[mk-app] #11981 or #4044 #11973
[mk-app] #11982 not #11981
[inst-discovered] theory-solving 0x0 basic# ; #4402
[mk-app] #11983 = #4402 #11982
[instance] 0x0 #11983
[attach-enode] #11983 0
[end-of-instance]
[mk-app] #11983 not #11982
[inst-discovered] theory-solving 0x0 basic# ; #11983
[mk-app] #11984 = #11983 #11981
[instance] 0x0 #11984
[attach-enode] #11984 0
[end-of-instance]
[mk-app] #11983 or #11854 #11900 #4044 #11973 #4403
[mk-app] #11984 or #11978 #11981 #4403
[inst-discovered] theory-solving 0x0 basic# ; #11984
[mk-app] #11985 = #11984 #11983
[instance] 0x0 #11985
[attach-enode] #11985 0
[end-of-instance]
[mk-quant] #11984 user_vstd__seq_lib__impl&%0__add_empty_right_0 4 #4313 #11983
[attach-var-names] #11984 (|b!| ; |Poly|) (|a!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11978 or #4411 #11984
[mk-app] #11968 or #11871 #11961 #1810
[mk-app] #11981 not #11968
[inst-discovered] theory-solving 0x0 basic# ; #4414
[mk-app] #11982 = #4414 #11981
[instance] 0x0 #11982
[attach-enode] #11982 0
[end-of-instance]
[mk-app] #11982 not #11981
[inst-discovered] theory-solving 0x0 basic# ; #11982
[mk-app] #11985 = #11982 #11968
[instance] 0x0 #11985
[attach-enode] #11985 0
[end-of-instance]
[mk-app] #11982 or #11871 #11961 #1810 #4424 #4418
[mk-app] #11985 or #11968 #4424 #4418
[inst-discovered] theory-solving 0x0 basic# ; #11985
[mk-app] #11986 = #11985 #11982
[instance] 0x0 #11986
[attach-enode] #11986 0
[end-of-instance]
[mk-quant] #11985 user_vstd__seq_lib__impl&%0__push_distributes_over_add_0 5 #4421 #11982
[attach-var-names] #11985 (|elt!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11968 or #4428 #11985
[mk-app] #11981 or #4044 #11717 #11743
[mk-app] #11986 not #11981
[inst-discovered] theory-solving 0x0 basic# ; #3387
[mk-app] #11987 = #3387 #11986
[instance] 0x0 #11987
[attach-enode] #11987 0
[end-of-instance]
[mk-app] #11987 not #11986
[inst-discovered] theory-solving 0x0 basic# ; #11987
[mk-app] #11988 = #11987 #11981
[instance] 0x0 #11988
[attach-enode] #11988 0
[end-of-instance]
[mk-app] #11987 or #4044 #11717 #11743 #4430
[mk-app] #11988 or #11981 #4430
[inst-discovered] theory-solving 0x0 basic# ; #11988
[mk-app] #11989 = #11988 #11987
[instance] 0x0 #11989
[attach-enode] #11989 0
[end-of-instance]
[mk-quant] #11988 internal_core__ops__function__impls__impl&__4_trait_impl_definition 4 #4432 #11987
[attach-var-names] #11988 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #11981 not #4437
[mk-app] #11986 not #1230
[mk-app] #11989 or #11981 #11986
[mk-app] #11990 not #11989
[inst-discovered] theory-solving 0x0 basic# ; #4438
[mk-app] #11991 = #4438 #11990
[instance] 0x0 #11991
[attach-enode] #11991 0
[end-of-instance]
[mk-app] #11991 not #11990
[inst-discovered] theory-solving 0x0 basic# ; #11991
[mk-app] #11992 = #11991 #11989
[instance] 0x0 #11992
[attach-enode] #11992 0
[end-of-instance]
[mk-app] #11991 not #4441
[mk-app] #11992 not #4444
[mk-app] #11993 or #11744 #4044 #11749 #11991 #11992
[mk-app] #11994 not #11993
[inst-discovered] theory-solving 0x0 basic# ; #4452
[mk-app] #11995 = #4452 #11994
[instance] 0x0 #11995
[attach-enode] #11995 0
[end-of-instance]
[mk-app] #11995 not #11994
[inst-discovered] theory-solving 0x0 basic# ; #11995
[mk-app] #11996 = #11995 #11993
[instance] 0x0 #11996
[attach-enode] #11996 0
[end-of-instance]
[mk-app] #11994 or #11981 #11986 #11744 #4044 #11749 #11991 #11992 #4446
[mk-app] #11995 or #11989 #11993 #4446
[inst-discovered] theory-solving 0x0 basic# ; #11995
[mk-app] #11996 = #11995 #11994
[instance] 0x0 #11996
[attach-enode] #11996 0
[end-of-instance]
[mk-quant] #11993 user_vstd__function__axiom_fn_mut_call_requires_0 6 #4449 #11994
[attach-var-names] #11993 (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #11989 or #4457 #11993
[mk-app] #11990 not #4461
[mk-app] #11995 not #4462
[mk-app] #11996 not #4464
[mk-app] #11997 or #11990 #11995 #11996
[mk-app] #11998 not #11997
[inst-discovered] theory-solving 0x0 basic# ; #4465
[mk-app] #11999 = #4465 #11998
[instance] 0x0 #11999
[attach-enode] #11999 0
[end-of-instance]
[mk-app] #11999 not #11998
[inst-discovered] theory-solving 0x0 basic# ; #11999
[mk-app] #12000 = #11999 #11997
[instance] 0x0 #12000
[attach-enode] #12000 0
[end-of-instance]
[mk-app] #11999 not #4467
[mk-app] #12000 not #4469
[mk-app] #12001 not #4471
[mk-app] #12002 or #11953 #4424 #11999 #12000 #12001
[mk-app] #12003 not #12002
[inst-discovered] theory-solving 0x0 basic# ; #4481
[mk-app] #12004 = #4481 #12003
[instance] 0x0 #12004
[attach-enode] #12004 0
[end-of-instance]
[mk-app] #12004 not #12003
[inst-discovered] theory-solving 0x0 basic# ; #12004
[mk-app] #12005 = #12004 #12002
[instance] 0x0 #12005
[attach-enode] #12005 0
[end-of-instance]
[mk-app] #12003 not #4473
[mk-app] #12004 not #4474
[mk-app] #12005 or #12003 #12004
[mk-app] #12006 not #12005
[inst-discovered] theory-solving 0x0 basic# ; #4475
[mk-app] #12007 = #4475 #12006
[instance] 0x0 #12007
[attach-enode] #12007 0
[end-of-instance]
[mk-app] #12007 or #11990 #11995 #11996 #11953 #4424 #11999 #12000 #12001 #12006
[mk-app] #12008 or #11997 #12002 #12006
[inst-discovered] theory-solving 0x0 basic# ; #12008
[mk-app] #12009 = #12008 #12007
[instance] 0x0 #12009
[attach-enode] #12009 0
[end-of-instance]
[mk-quant] #12002 user_vstd__function__axiom_fn_mut_call_ensures_0 7 #4478 #12007
[attach-var-names] #12002 (|output!| ; |Poly|) (|args!| ; |Poly|) (|f!| ; |Poly|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #11997 or #4486 #12002
[inst-discovered] theory-solving 0x0 basic# ; #4523
[mk-app] #11998 = #4523 #4523
[instance] 0x0 #11998
[attach-enode] #11998 0
[end-of-instance]
[mk-app] #11998 or #11800 #4552
[mk-app] #12008 not #11998
[inst-discovered] theory-solving 0x0 basic# ; #4556
[mk-app] #12009 = #4556 #12008
[instance] 0x0 #12009
[attach-enode] #12009 0
[end-of-instance]
[mk-app] #12009 or #4557 #12008
[mk-app] #12010 = #4540 #12009
[mk-quant] #12011 internal_req__vstd!slice.SliceAdditionalSpecFns.spec_index._definition 6 #4548 #12010
[attach-var-names] #12011 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12012 or #11598 #192
[mk-app] #12013 not #12012
[inst-discovered] theory-solving 0x0 basic# ; #4550
[mk-app] #12014 = #4550 #12013
[instance] 0x0 #12014
[attach-enode] #12014 0
[end-of-instance]
[mk-app] #12014 not #12013
[inst-discovered] theory-solving 0x0 basic# ; #12014
[mk-app] #12015 = #12014 #12012
[instance] 0x0 #12015
[attach-enode] #12015 0
[end-of-instance]
[mk-app] #12014 or #11598 #192 #4561
[mk-app] #12015 or #12012 #4561
[inst-discovered] theory-solving 0x0 basic# ; #12015
[mk-app] #12016 = #12015 #12014
[instance] 0x0 #12016
[attach-enode] #12016 0
[end-of-instance]
[mk-quant] #12015 internal_vstd!slice.SliceAdditionalSpecFns.spec_index.?_pre_post_definition 6 #4563 #12014
[attach-var-names] #12015 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12012 not #4589
[mk-app] #12013 not #4590
[mk-app] #12016 or #12012 #12013
[mk-app] #12017 not #12016
[inst-discovered] theory-solving 0x0 basic# ; #4591
[mk-app] #12018 = #4591 #12017
[instance] 0x0 #12018
[attach-enode] #12018 0
[end-of-instance]
[mk-app] #12018 not #12017
[inst-discovered] theory-solving 0x0 basic# ; #12018
[mk-app] #12019 = #12018 #12016
[instance] 0x0 #12019
[attach-enode] #12019 0
[end-of-instance]
[mk-app] #12018 or #11800 #4619
[mk-app] #12019 not #12018
[inst-discovered] theory-solving 0x0 basic# ; #4623
[mk-app] #12020 = #4623 #12019
[instance] 0x0 #12020
[attach-enode] #12020 0
[end-of-instance]
[mk-app] #12020 not #12019
[inst-discovered] theory-solving 0x0 basic# ; #12020
[mk-app] #12021 = #12020 #12018
[instance] 0x0 #12021
[attach-enode] #12021 0
[end-of-instance]
[mk-app] #12019 or #192 #11800 #4619 #4604
[mk-app] #12020 or #192 #12018 #4604
[inst-discovered] theory-solving 0x0 basic# ; #12020
[mk-app] #12021 = #12020 #12019
[instance] 0x0 #12021
[attach-enode] #12021 0
[end-of-instance]
[mk-quant] #12018 user_vstd__slice__axiom_slice_ext_equal_0 1 #4607 #4608 #12019
[attach-var-names] #12018 (|i$| ; |Poly|)
[mk-app] #12020 not #12018
[mk-app] #12021 or #11195 #12020
[mk-app] #12022 not #12021
[mk-app] #12023 and #4595 #12018
[inst-discovered] theory-solving 0x0 basic# ; #12023
[mk-app] #12024 = #12023 #12022
[instance] 0x0 #12024
[attach-enode] #12024 0
[end-of-instance]
[mk-app] #12023 or #11194 #12022
[mk-app] #12024 not #11213
[mk-app] #12025 or #12024 #11236
[mk-app] #12026 not #12025
[inst-discovered] theory-solving 0x0 basic# ; #11237
[mk-app] #12027 = #11237 #12026
[instance] 0x0 #12027
[attach-enode] #12027 0
[end-of-instance]
[mk-app] #12027 not #12026
[inst-discovered] theory-solving 0x0 basic# ; #12027
[mk-app] #12028 = #12027 #12025
[instance] 0x0 #12028
[attach-enode] #12028 0
[end-of-instance]
[mk-app] #12026 or #11198 #12024 #11236 #11223
[mk-app] #12027 or #11198 #12025 #11223
[inst-discovered] theory-solving 0x0 basic# ; #12027
[mk-app] #12028 = #12027 #12026
[instance] 0x0 #12028
[attach-enode] #12028 0
[end-of-instance]
[mk-app] #12025 not #12026
[mk-app] #12027 or #4592 #11195 #12025
[inst-discovered] theory-solving 0x0 basic# ; #12027
[mk-app] #12028 = #12027 #12027
[instance] 0x0 #12028
[attach-enode] #12028 0
[end-of-instance]
[mk-app] #12028 not #12023
[mk-app] #12029 not #12027
[mk-app] #12030 or #12028 #12029
[mk-app] #12031 not #12030
[mk-app] #12032 and #12023 #12027
[inst-discovered] theory-solving 0x0 basic# ; #12032
[mk-app] #12033 = #12032 #12031
[instance] 0x0 #12033
[attach-enode] #12033 0
[end-of-instance]
[mk-app] #12032 or #12012 #12013 #4044 #12031
[mk-app] #12033 or #12016 #4044 #12031
[inst-discovered] theory-solving 0x0 basic# ; #12033
[mk-app] #12034 = #12033 #12032
[instance] 0x0 #12034
[attach-enode] #12034 0
[end-of-instance]
[mk-quant] #12033 user_vstd__slice__axiom_slice_ext_equal_1 4 #4614 #12032
[attach-var-names] #12033 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12016 or #4630 #12033
[mk-app] #12017 or #12012 #192
[mk-app] #12034 not #12017
[inst-discovered] theory-solving 0x0 basic# ; #4633
[mk-app] #12035 = #4633 #12034
[instance] 0x0 #12035
[attach-enode] #12035 0
[end-of-instance]
[mk-app] #12035 not #12034
[inst-discovered] theory-solving 0x0 basic# ; #12035
[mk-app] #12036 = #12035 #12017
[instance] 0x0 #12036
[attach-enode] #12036 0
[end-of-instance]
[mk-app] #12035 or #11800 #4648
[mk-app] #12036 not #12035
[inst-discovered] theory-solving 0x0 basic# ; #4652
[mk-app] #12037 = #4652 #12036
[instance] 0x0 #12037
[attach-enode] #12037 0
[end-of-instance]
[mk-app] #12037 not #12036
[inst-discovered] theory-solving 0x0 basic# ; #12037
[mk-app] #12038 = #12037 #12035
[instance] 0x0 #12038
[attach-enode] #12038 0
[end-of-instance]
[mk-app] #12036 or #12012 #192 #4044 #11800 #4648 #4653 #4638
[mk-app] #12037 or #12017 #4044 #12035 #4653 #4638
[inst-discovered] theory-solving 0x0 basic# ; #12037
[mk-app] #12038 = #12037 #12036
[instance] 0x0 #12038
[attach-enode] #12038 0
[end-of-instance]
[mk-quant] #12035 user_vstd__slice__axiom_slice_has_resolved_0 4 #4643 #12036
[attach-var-names] #12035 (|i!| ; |Poly|) (|slice!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12017 or #4646 #12035
[inst-discovered] theory-solving 0x0 basic# ; #4668
[mk-app] #12034 = #4668 #4668
[instance] 0x0 #12034
[attach-enode] #12034 0
[end-of-instance]
[mk-app] #12034 or #12012 #192
[mk-app] #12037 not #12034
[inst-discovered] theory-solving 0x0 basic# ; #4633
[mk-app] #12038 = #4633 #12037
[instance] 0x0 #12038
[attach-enode] #12038 0
[end-of-instance]
[mk-app] #12038 not #12037
[inst-discovered] theory-solving 0x0 basic# ; #12038
[mk-app] #12039 = #12038 #12034
[instance] 0x0 #12039
[attach-enode] #12039 0
[end-of-instance]
[mk-app] #12038 or #4044 #11800 #4685
[mk-app] #12039 not #12038
[inst-discovered] theory-solving 0x0 basic# ; #4689
[mk-app] #12040 = #4689 #12039
[instance] 0x0 #12040
[attach-enode] #12040 0
[end-of-instance]
[mk-app] #12040 not #12039
[inst-discovered] theory-solving 0x0 basic# ; #12040
[mk-app] #12041 = #12040 #12038
[instance] 0x0 #12041
[attach-enode] #12041 0
[end-of-instance]
[mk-app] #12039 or #12012 #192 #4044 #11800 #4685 #4677
[mk-app] #12040 or #12034 #12038 #4677
[inst-discovered] theory-solving 0x0 basic# ; #12040
[mk-app] #12041 = #12040 #12039
[instance] 0x0 #12041
[attach-enode] #12041 0
[end-of-instance]
[mk-quant] #12038 user_vstd__slice__lemma_slice_index_decreases_0 4 #4680 #12039
[attach-var-names] #12038 (|i!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12034 or #4683 #12038
[mk-app] #12037 not #4538
[mk-app] #12040 or #4424 #12037
[mk-app] #12041 not #12040
[inst-discovered] theory-solving 0x0 basic# ; #4539
[mk-app] #12042 = #4539 #12041
[instance] 0x0 #12042
[attach-enode] #12042 0
[end-of-instance]
[mk-app] #12042 not #12041
[inst-discovered] theory-solving 0x0 basic# ; #12042
[mk-app] #12043 = #12042 #12040
[instance] 0x0 #12043
[attach-enode] #12043 0
[end-of-instance]
[mk-app] #12041 or #4424 #12037 #4724
[mk-app] #12042 or #12040 #4724
[inst-discovered] theory-solving 0x0 basic# ; #12042
[mk-app] #12043 = #12042 #12041
[instance] 0x0 #12043
[attach-enode] #12043 0
[end-of-instance]
[mk-quant] #12042 internal_vstd!array.impl&__0.view.?_definition 5 #4726 #12041
[attach-var-names] #12042 (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12040 or #4732 #12042
[mk-app] #12043 or #4044 #11716
[mk-app] #12044 not #12043
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #12045 = #2612 #12044
[instance] 0x0 #12045
[attach-enode] #12045 0
[end-of-instance]
[mk-app] #12045 not #12044
[inst-discovered] theory-solving 0x0 basic# ; #12045
[mk-app] #12046 = #12045 #12043
[instance] 0x0 #12046
[attach-enode] #12046 0
[end-of-instance]
[mk-app] #12044 or #4044 #11716 #4734
[mk-app] #12045 or #12043 #4734
[inst-discovered] theory-solving 0x0 basic# ; #12045
[mk-app] #12046 = #12045 #12044
[instance] 0x0 #12046
[attach-enode] #12046 0
[end-of-instance]
[mk-quant] #12045 internal_vstd__array__impl&__0_trait_impl_definition 4 #4736 #12044
[attach-var-names] #12045 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12043 or #4424 #12037
[mk-app] #12046 not #12043
[inst-discovered] theory-solving 0x0 basic# ; #4539
[mk-app] #12047 = #4539 #12046
[instance] 0x0 #12047
[attach-enode] #12047 0
[end-of-instance]
[mk-app] #12047 not #12046
[inst-discovered] theory-solving 0x0 basic# ; #12047
[mk-app] #12048 = #12047 #12043
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[mk-app] #12046 or #1312 #4424 #12037 #4742
[mk-app] #12047 or #1312 #12043 #4742
[inst-discovered] theory-solving 0x0 basic# ; #12047
[mk-app] #12048 = #12047 #12046
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[mk-quant] #12047 user_vstd__array__array_len_matches_n_0 5 #4745 #12046
[attach-var-names] #12047 (|ar!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12043 or #4750 #12047
[inst-discovered] theory-solving 0x0 basic# ; #4556
[mk-app] #12048 = #4556 #12008
[instance] 0x0 #12048
[attach-enode] #12048 0
[end-of-instance]
[mk-app] #12048 or #4760 #12008
[mk-app] #12049 = #4752 #12048
[mk-quant] #12050 internal_req__vstd!array.ArrayAdditionalSpecFns.spec_index._definition 6 #4756 #12049
[attach-var-names] #12050 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12051 or #11598 #192
[mk-app] #12052 not #12051
[inst-discovered] theory-solving 0x0 basic# ; #4550
[mk-app] #12053 = #4550 #12052
[instance] 0x0 #12053
[attach-enode] #12053 0
[end-of-instance]
[mk-app] #12053 not #12052
[inst-discovered] theory-solving 0x0 basic# ; #12053
[mk-app] #12054 = #12053 #12051
[instance] 0x0 #12054
[attach-enode] #12054 0
[end-of-instance]
[mk-app] #12053 or #11598 #192 #4759
[mk-app] #12054 or #12051 #4759
[inst-discovered] theory-solving 0x0 basic# ; #12054
[mk-app] #12055 = #12054 #12053
[instance] 0x0 #12055
[attach-enode] #12055 0
[end-of-instance]
[mk-quant] #12054 internal_vstd!array.ArrayAdditionalSpecFns.spec_index.?_pre_post_definition 6 #4765 #12053
[attach-var-names] #12054 (|i!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12051 not #4749
[mk-app] #12052 or #11744 #12051
[mk-app] #12055 not #12052
[inst-discovered] theory-solving 0x0 basic# ; #4748
[mk-app] #12056 = #4748 #12055
[instance] 0x0 #12056
[attach-enode] #12056 0
[end-of-instance]
[mk-app] #12056 not #12055
[inst-discovered] theory-solving 0x0 basic# ; #12056
[mk-app] #12057 = #12056 #12052
[instance] 0x0 #12057
[attach-enode] #12057 0
[end-of-instance]
[mk-app] #12055 or #11744 #12051 #4778
[mk-app] #12056 or #12052 #4778
[inst-discovered] theory-solving 0x0 basic# ; #12056
[mk-app] #12057 = #12056 #12055
[instance] 0x0 #12057
[attach-enode] #12057 0
[end-of-instance]
[mk-quant] #12056 internal_vstd!array.impl&__2.spec_index.?_definition 6 #4780 #12055
[attach-var-names] #12056 (|i!| ; |Poly|) (|self!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12052 or #4786 #12056
[mk-app] #12057 or #4044 #11716
[mk-app] #12058 not #12057
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #12059 = #2612 #12058
[instance] 0x0 #12059
[attach-enode] #12059 0
[end-of-instance]
[mk-app] #12059 not #12058
[inst-discovered] theory-solving 0x0 basic# ; #12059
[mk-app] #12060 = #12059 #12057
[instance] 0x0 #12060
[attach-enode] #12060 0
[end-of-instance]
[mk-app] #12058 or #4044 #11716 #4788
[mk-app] #12059 or #12057 #4788
[inst-discovered] theory-solving 0x0 basic# ; #12059
[mk-app] #12060 = #12059 #12058
[instance] 0x0 #12060
[attach-enode] #12060 0
[end-of-instance]
[mk-quant] #12059 internal_vstd__array__impl&__2_trait_impl_definition 4 #4790 #12058
[attach-var-names] #12059 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12057 not #4795
[mk-app] #12060 or #12057 #192
[mk-app] #12061 not #12060
[inst-discovered] theory-solving 0x0 basic# ; #4796
[mk-app] #12062 = #4796 #12061
[instance] 0x0 #12062
[attach-enode] #12062 0
[end-of-instance]
[mk-app] #12062 not #12061
[inst-discovered] theory-solving 0x0 basic# ; #12062
[mk-app] #12063 = #12062 #12060
[instance] 0x0 #12063
[attach-enode] #12063 0
[end-of-instance]
[mk-app] #12062 or #11744 #12051 #11800 #4812
[mk-app] #12063 not #12062
[inst-discovered] theory-solving 0x0 basic# ; #4792
[mk-app] #12064 = #4792 #12063
[instance] 0x0 #12064
[attach-enode] #12064 0
[end-of-instance]
[mk-app] #12064 not #12063
[inst-discovered] theory-solving 0x0 basic# ; #12064
[mk-app] #12065 = #12064 #12062
[instance] 0x0 #12065
[attach-enode] #12065 0
[end-of-instance]
[mk-app] #12063 or #12057 #192 #11744 #12051 #11800 #4812 #4802
[mk-app] #12064 or #12060 #12062 #4802
[inst-discovered] theory-solving 0x0 basic# ; #12064
[mk-app] #12065 = #12064 #12063
[instance] 0x0 #12065
[attach-enode] #12065 0
[end-of-instance]
[mk-quant] #12062 user_vstd__array__lemma_array_index_0 6 #4807 #12063
[attach-var-names] #12062 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12060 or #4810 #12062
[mk-app] #12061 not #4822
[mk-app] #12064 or #12057 #12061
[mk-app] #12065 not #12064
[inst-discovered] theory-solving 0x0 basic# ; #4823
[mk-app] #12066 = #4823 #12065
[instance] 0x0 #12066
[attach-enode] #12066 0
[end-of-instance]
[mk-app] #12066 not #12065
[inst-discovered] theory-solving 0x0 basic# ; #12066
[mk-app] #12067 = #12066 #12064
[instance] 0x0 #12067
[attach-enode] #12067 0
[end-of-instance]
[mk-app] #12066 or #11744 #12051
[mk-app] #12067 not #12066
[inst-discovered] theory-solving 0x0 basic# ; #4748
[mk-app] #12068 = #4748 #12067
[instance] 0x0 #12068
[attach-enode] #12068 0
[end-of-instance]
[mk-app] #12068 not #12067
[inst-discovered] theory-solving 0x0 basic# ; #12068
[mk-app] #12069 = #12068 #12066
[instance] 0x0 #12069
[attach-enode] #12069 0
[end-of-instance]
[mk-app] #12067 or #11800 #4847
[mk-app] #12068 not #12067
[inst-discovered] theory-solving 0x0 basic# ; #4851
[mk-app] #12069 = #4851 #12068
[instance] 0x0 #12069
[attach-enode] #12069 0
[end-of-instance]
[mk-app] #12069 not #12068
[inst-discovered] theory-solving 0x0 basic# ; #12069
[mk-app] #12070 = #12069 #12067
[instance] 0x0 #12070
[attach-enode] #12070 0
[end-of-instance]
[mk-app] #12068 or #192 #11800 #4847 #4833
[mk-app] #12069 or #192 #12067 #4833
[inst-discovered] theory-solving 0x0 basic# ; #12069
[mk-app] #12070 = #12069 #12068
[instance] 0x0 #12070
[attach-enode] #12070 0
[end-of-instance]
[mk-quant] #12067 user_vstd__array__axiom_array_ext_equal_0 1 #4836 #4837 #12068
[attach-var-names] #12067 (|i$| ; |Poly|)
[mk-app] #12069 or #11228 #12067
[mk-app] #12070 not #11246
[mk-app] #12071 or #12070 #11267
[mk-app] #12072 not #12071
[inst-discovered] theory-solving 0x0 basic# ; #11268
[mk-app] #12073 = #11268 #12072
[instance] 0x0 #12073
[attach-enode] #12073 0
[end-of-instance]
[mk-app] #12073 not #12072
[inst-discovered] theory-solving 0x0 basic# ; #12073
[mk-app] #12074 = #12073 #12071
[instance] 0x0 #12074
[attach-enode] #12074 0
[end-of-instance]
[mk-app] #12072 or #11231 #12070 #11267 #11255
[mk-app] #12073 or #11231 #12071 #11255
[inst-discovered] theory-solving 0x0 basic# ; #12073
[mk-app] #12074 = #12073 #12072
[instance] 0x0 #12074
[attach-enode] #12074 0
[end-of-instance]
[mk-app] #12071 not #12072
[mk-app] #12073 or #4824 #12071
[inst-discovered] theory-solving 0x0 basic# ; #12073
[mk-app] #12074 = #12073 #12073
[instance] 0x0 #12074
[attach-enode] #12074 0
[end-of-instance]
[mk-app] #12074 not #12069
[mk-app] #12075 not #12073
[mk-app] #12076 or #12074 #12075
[mk-app] #12077 not #12076
[mk-app] #12078 and #12069 #12073
[inst-discovered] theory-solving 0x0 basic# ; #12078
[mk-app] #12079 = #12078 #12077
[instance] 0x0 #12079
[attach-enode] #12079 0
[end-of-instance]
[mk-app] #12078 or #12057 #12061 #11744 #12051 #12077
[mk-app] #12079 or #12064 #12066 #12077
[inst-discovered] theory-solving 0x0 basic# ; #12079
[mk-app] #12080 = #12079 #12078
[instance] 0x0 #12080
[attach-enode] #12080 0
[end-of-instance]
[mk-quant] #12079 user_vstd__array__axiom_array_ext_equal_1 6 #4842 #12078
[attach-var-names] #12079 (|a2!| ; |Poly|) (|a1!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12066 or #4857 #12079
[mk-app] #12064 or #12057 #192
[mk-app] #12065 not #12064
[inst-discovered] theory-solving 0x0 basic# ; #4796
[mk-app] #12080 = #4796 #12065
[instance] 0x0 #12080
[attach-enode] #12080 0
[end-of-instance]
[mk-app] #12080 not #12065
[inst-discovered] theory-solving 0x0 basic# ; #12080
[mk-app] #12081 = #12080 #12064
[instance] 0x0 #12081
[attach-enode] #12081 0
[end-of-instance]
[mk-app] #12080 or #11744 #12051
[mk-app] #12081 not #12080
[inst-discovered] theory-solving 0x0 basic# ; #4748
[mk-app] #12082 = #4748 #12081
[instance] 0x0 #12082
[attach-enode] #12082 0
[end-of-instance]
[mk-app] #12082 not #12081
[inst-discovered] theory-solving 0x0 basic# ; #12082
[mk-app] #12083 = #12082 #12080
[instance] 0x0 #12083
[attach-enode] #12083 0
[end-of-instance]
[mk-app] #12081 or #11800 #4812
[mk-app] #12082 not #12081
[inst-discovered] theory-solving 0x0 basic# ; #4871
[mk-app] #12083 = #4871 #12082
[instance] 0x0 #12083
[attach-enode] #12083 0
[end-of-instance]
[mk-app] #12083 not #12082
[inst-discovered] theory-solving 0x0 basic# ; #12083
[mk-app] #12084 = #12083 #12081
[instance] 0x0 #12084
[attach-enode] #12084 0
[end-of-instance]
[mk-app] #12082 or #12057 #192 #11744 #12051 #11800 #4812 #4872 #4861
[mk-app] #12083 or #12064 #12080 #12081 #4872 #4861
[inst-discovered] theory-solving 0x0 basic# ; #12083
[mk-app] #12084 = #12083 #12082
[instance] 0x0 #12084
[attach-enode] #12084 0
[end-of-instance]
[mk-quant] #12081 user_vstd__array__axiom_array_has_resolved_0 6 #4866 #12082
[attach-var-names] #12081 (|i!| ; |Poly|) (|array!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12080 or #4869 #12081
[mk-app] #12064 or #4424 #12037
[mk-app] #12065 not #12064
[inst-discovered] theory-solving 0x0 basic# ; #4539
[mk-app] #12083 = #4539 #12065
[instance] 0x0 #12083
[attach-enode] #12083 0
[end-of-instance]
[mk-app] #12083 not #12065
[inst-discovered] theory-solving 0x0 basic# ; #12083
[mk-app] #12084 = #12083 #12064
[instance] 0x0 #12084
[attach-enode] #12084 0
[end-of-instance]
[mk-app] #12065 or #1312 #4424 #12037 #4878
[mk-app] #12083 or #1312 #12064 #4878
[inst-discovered] theory-solving 0x0 basic# ; #12083
[mk-app] #12084 = #12083 #12065
[instance] 0x0 #12084
[attach-enode] #12084 0
[end-of-instance]
[mk-quant] #12083 user_vstd__array__axiom_array_decreases_to_seq_0 5 #4881 #12065
[attach-var-names] #12083 (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12064 or #4886 #12083
[mk-app] #12084 or #12057 #192
[mk-app] #12085 not #12084
[inst-discovered] theory-solving 0x0 basic# ; #4796
[mk-app] #12086 = #4796 #12085
[instance] 0x0 #12086
[attach-enode] #12086 0
[end-of-instance]
[mk-app] #12086 not #12085
[inst-discovered] theory-solving 0x0 basic# ; #12086
[mk-app] #12087 = #12086 #12084
[instance] 0x0 #12087
[attach-enode] #12087 0
[end-of-instance]
[mk-app] #12086 or #11744 #12051 #11800 #4902
[mk-app] #12087 not #12086
[inst-discovered] theory-solving 0x0 basic# ; #4729
[mk-app] #12088 = #4729 #12087
[instance] 0x0 #12088
[attach-enode] #12088 0
[end-of-instance]
[mk-app] #12088 not #12087
[inst-discovered] theory-solving 0x0 basic# ; #12088
[mk-app] #12089 = #12088 #12086
[instance] 0x0 #12089
[attach-enode] #12089 0
[end-of-instance]
[mk-app] #12087 or #12057 #192 #11744 #12051 #11800 #4902 #4894
[mk-app] #12088 or #12084 #12086 #4894
[inst-discovered] theory-solving 0x0 basic# ; #12088
[mk-app] #12089 = #12088 #12087
[instance] 0x0 #12089
[attach-enode] #12089 0
[end-of-instance]
[mk-quant] #12086 user_vstd__array__lemma_array_index_decreases_0 6 #4897 #12087
[attach-var-names] #12086 (|i!| ; |Poly|) (|a!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12084 or #4900 #12086
[mk-app] #12085 not #4925
[mk-app] #12088 or #12085 #192
[mk-app] #12089 not #12088
[inst-discovered] theory-solving 0x0 basic# ; #4926
[mk-app] #12090 = #4926 #12089
[instance] 0x0 #12090
[attach-enode] #12090 0
[end-of-instance]
[mk-app] #12090 not #12089
[inst-discovered] theory-solving 0x0 basic# ; #12090
[mk-app] #12091 = #12090 #12088
[instance] 0x0 #12091
[attach-enode] #12091 0
[end-of-instance]
[mk-app] #12090 or #12085 #192 #4932
[mk-app] #12091 or #12088 #4932
[inst-discovered] theory-solving 0x0 basic# ; #12091
[mk-app] #12092 = #12091 #12090
[instance] 0x0 #12092
[attach-enode] #12092 0
[end-of-instance]
[mk-quant] #12091 user_vstd__string__axiom_str_literal_get_char_0 2 #4934 #12090
[attach-var-names] #12091 (|i!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #12088 or #4940 #12091
[mk-app] #12089 not #4967
[mk-app] #12092 or #12089 #1431
[mk-app] #12093 not #12092
[inst-discovered] theory-solving 0x0 basic# ; #4968
[mk-app] #12094 = #4968 #12093
[instance] 0x0 #12094
[attach-enode] #12094 0
[end-of-instance]
[mk-app] #12094 not #12093
[inst-discovered] theory-solving 0x0 basic# ; #12094
[mk-app] #12095 = #12094 #12092
[instance] 0x0 #12095
[attach-enode] #12095 0
[end-of-instance]
[mk-app] #12094 or #12089 #1431 #4971
[mk-app] #12095 or #12092 #4971
[inst-discovered] theory-solving 0x0 basic# ; #12095
[mk-app] #12096 = #12095 #12094
[instance] 0x0 #12096
[attach-enode] #12096 0
[end-of-instance]
[mk-quant] #12095 internal_vstd!raw_ptr.view_reverse_for_eq_sized.?_pre_post_definition 4 #4973 #12094
[attach-var-names] #12095 (|provenance!| ; |Poly|) (|addr!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #4991
[mk-app] #12092 = #4991 #4991
[instance] 0x0 #12092
[attach-enode] #12092 0
[end-of-instance]
[mk-app] #12092 or #11616 #11617
[mk-app] #12093 not #12092
[inst-discovered] theory-solving 0x0 basic# ; #1989
[mk-app] #12096 = #1989 #12093
[instance] 0x0 #12096
[attach-enode] #12096 0
[end-of-instance]
[mk-app] #12096 not #12093
[inst-discovered] theory-solving 0x0 basic# ; #12096
[mk-app] #12097 = #12096 #12092
[instance] 0x0 #12097
[attach-enode] #12097 0
[end-of-instance]
[mk-app] #12096 or #11616 #11617 #4998
[mk-app] #12097 or #12092 #4998
[inst-discovered] theory-solving 0x0 basic# ; #12097
[mk-app] #12098 = #12097 #12096
[instance] 0x0 #12098
[attach-enode] #12098 0
[end-of-instance]
[mk-quant] #12097 internal_vstd!std_specs.iter.StepSpec.spec_is_lt.?_pre_post_definition 4 #5000 #12096
[attach-var-names] #12097 (|other!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12092 or #11616 #11617
[mk-app] #12093 not #12092
[inst-discovered] theory-solving 0x0 basic# ; #1989
[mk-app] #12098 = #1989 #12093
[instance] 0x0 #12098
[attach-enode] #12098 0
[end-of-instance]
[mk-app] #12098 not #12093
[inst-discovered] theory-solving 0x0 basic# ; #12098
[mk-app] #12099 = #12098 #12092
[instance] 0x0 #12099
[attach-enode] #12099 0
[end-of-instance]
[mk-app] #12098 or #11616 #11617 #5005
[mk-app] #12099 or #12092 #5005
[inst-discovered] theory-solving 0x0 basic# ; #12099
[mk-app] #12100 = #12099 #12098
[instance] 0x0 #12100
[attach-enode] #12100 0
[end-of-instance]
[mk-quant] #12099 internal_vstd!std_specs.iter.StepSpec.spec_steps_between_int.?_pre_post_definition 4 #5007 #12098
[attach-var-names] #12099 (|end!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12092 or #11616 #208
[mk-app] #12093 not #12092
[inst-discovered] theory-solving 0x0 basic# ; #5011
[mk-app] #12100 = #5011 #12093
[instance] 0x0 #12100
[attach-enode] #12100 0
[end-of-instance]
[mk-app] #12100 not #12093
[inst-discovered] theory-solving 0x0 basic# ; #12100
[mk-app] #12101 = #12100 #12092
[instance] 0x0 #12101
[attach-enode] #12101 0
[end-of-instance]
[mk-app] #12100 or #11616 #208 #5014
[mk-app] #12101 or #12092 #5014
[inst-discovered] theory-solving 0x0 basic# ; #12101
[mk-app] #12102 = #12101 #12100
[instance] 0x0 #12102
[attach-enode] #12102 0
[end-of-instance]
[mk-quant] #12101 internal_vstd!std_specs.iter.StepSpec.spec_forward_checked.?_pre_post_definition 4 #5016 #12100
[attach-var-names] #12101 (|count!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12092 or #11616 #192
[mk-app] #12093 not #12092
[inst-discovered] theory-solving 0x0 basic# ; #5021
[mk-app] #12102 = #5021 #12093
[instance] 0x0 #12102
[attach-enode] #12102 0
[end-of-instance]
[mk-app] #12102 not #12093
[inst-discovered] theory-solving 0x0 basic# ; #12102
[mk-app] #12103 = #12102 #12092
[instance] 0x0 #12103
[attach-enode] #12103 0
[end-of-instance]
[mk-app] #12102 or #11616 #192 #5023
[mk-app] #12103 or #12092 #5023
[inst-discovered] theory-solving 0x0 basic# ; #12103
[mk-app] #12104 = #12103 #12102
[instance] 0x0 #12104
[attach-enode] #12104 0
[end-of-instance]
[mk-quant] #12103 internal_vstd!std_specs.iter.StepSpec.spec_forward_checked_int.?_pre_post_definition 4 #5025 #12102
[attach-var-names] #12103 (|count!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12092 or #3188 #3087
[mk-app] #12093 not #12092
[inst-discovered] theory-solving 0x0 basic# ; #3748
[mk-app] #12104 = #3748 #12093
[instance] 0x0 #12104
[attach-enode] #12104 0
[end-of-instance]
[mk-app] #12104 not #12093
[inst-discovered] theory-solving 0x0 basic# ; #12104
[mk-app] #12105 = #12104 #12092
[instance] 0x0 #12105
[attach-enode] #12105 0
[end-of-instance]
[mk-app] #12104 or #3188 #3087 #3097
[mk-app] #12105 or #12092 #3097
[inst-discovered] theory-solving 0x0 basic# ; #12105
[mk-app] #12106 = #12105 #12104
[instance] 0x0 #12106
[attach-enode] #12106 0
[end-of-instance]
[mk-quant] #12105 internal_vstd__std_specs__iter__impl&__16_trait_impl_definition 2 #3100 #12104
[attach-var-names] #12105 (|VERUS_SPEC__A&| ; |Type|) (|VERUS_SPEC__A&.| ; |Dcr|)
[mk-app] #12092 not #5132
[mk-app] #12093 not #5131
[mk-app] #12106 or #12092 #12093
[mk-app] #12107 not #12106
[inst-discovered] theory-solving 0x0 basic# ; #5133
[mk-app] #12108 = #5133 #12107
[instance] 0x0 #12108
[attach-enode] #12108 0
[end-of-instance]
[mk-app] #12108 or #5134 #12107
[mk-quant] #12109 user_vstd__std_specs__range__axiom_spec_range_next_u8_0 1 #5126 #12108
[attach-var-names] #12109 (|range!| ; |Poly|)
[mk-app] #12110 or #5137 #12109
[mk-app] #12111 not #5220
[mk-app] #12112 not #5219
[mk-app] #12113 or #12111 #12112
[mk-app] #12114 not #12113
[inst-discovered] theory-solving 0x0 basic# ; #5221
[mk-app] #12115 = #5221 #12114
[instance] 0x0 #12115
[attach-enode] #12115 0
[end-of-instance]
[mk-app] #12115 or #5222 #12114
[mk-quant] #12116 user_vstd__std_specs__range__axiom_spec_range_next_u32_0 1 #5214 #12115
[attach-var-names] #12116 (|range!| ; |Poly|)
[mk-app] #12117 or #5225 #12116
[mk-app] #12118 not #5316
[mk-app] #12119 not #5315
[mk-app] #12120 or #12118 #12119
[mk-app] #12121 not #12120
[inst-discovered] theory-solving 0x0 basic# ; #5317
[mk-app] #12122 = #5317 #12121
[instance] 0x0 #12122
[attach-enode] #12122 0
[end-of-instance]
[mk-app] #12122 or #5318 #12121
[mk-quant] #12123 user_vstd__std_specs__range__axiom_spec_range_next_usize_0 1 #5310 #12122
[attach-var-names] #12123 (|range!| ; |Poly|)
[mk-app] #12124 or #5321 #12123
[mk-app] #12125 not #5412
[mk-app] #12126 not #5411
[mk-app] #12127 or #12125 #12126
[mk-app] #12128 not #12127
[inst-discovered] theory-solving 0x0 basic# ; #5413
[mk-app] #12129 = #5413 #12128
[instance] 0x0 #12129
[attach-enode] #12129 0
[end-of-instance]
[mk-app] #12129 or #5414 #12128
[mk-quant] #12130 user_vstd__std_specs__range__axiom_spec_range_next_isize_0 1 #5406 #12129
[attach-var-names] #12130 (|range!| ; |Poly|)
[mk-app] #12131 or #5417 #12130
[mk-app] #12132 or #4044 #3188 #10314
[mk-app] #12133 not #12132
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #12134 = #3269 #12133
[instance] 0x0 #12134
[attach-enode] #12134 0
[end-of-instance]
[mk-app] #12134 not #12133
[inst-discovered] theory-solving 0x0 basic# ; #12134
[mk-app] #12135 = #12134 #12132
[instance] 0x0 #12135
[attach-enode] #12135 0
[end-of-instance]
[mk-app] #12134 or #4044 #3188 #10314 #5429
[mk-app] #12135 or #12132 #5429
[inst-discovered] theory-solving 0x0 basic# ; #12135
[mk-app] #12136 = #12135 #12134
[instance] 0x0 #12136
[attach-enode] #12136 0
[end-of-instance]
[mk-quant] #12135 internal_vstd__view__impl&__8_trait_impl_definition 4 #5431 #12134
[attach-var-names] #12135 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12132 not #5437
[mk-app] #12133 or #4424 #4521 #12132
[mk-app] #12136 not #12133
[inst-discovered] theory-solving 0x0 basic# ; #5446
[mk-app] #12137 = #5446 #12136
[instance] 0x0 #12137
[attach-enode] #12137 0
[end-of-instance]
[mk-app] #12137 not #12136
[inst-discovered] theory-solving 0x0 basic# ; #12137
[mk-app] #12138 = #12137 #12133
[instance] 0x0 #12138
[attach-enode] #12138 0
[end-of-instance]
[mk-app] #12137 or #5426 #4424 #4521 #12132 #5441
[mk-app] #12138 or #5426 #12133 #5441
[inst-discovered] theory-solving 0x0 basic# ; #12138
[mk-app] #12139 = #12138 #12137
[instance] 0x0 #12139
[attach-enode] #12139 0
[end-of-instance]
[mk-quant] #12138 user_vstd__std_specs__vec__axiom_spec_len_0 5 #5424 #12137
[attach-var-names] #12138 (|v!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12133 or #5450 #12138
[mk-app] #12136 not #5455
[mk-app] #12139 or #12136 #192
[mk-app] #12140 not #12139
[inst-discovered] theory-solving 0x0 basic# ; #5456
[mk-app] #12141 = #5456 #12140
[instance] 0x0 #12141
[attach-enode] #12141 0
[end-of-instance]
[mk-app] #12141 not #12140
[inst-discovered] theory-solving 0x0 basic# ; #12141
[mk-app] #12142 = #12141 #12139
[instance] 0x0 #12142
[attach-enode] #12142 0
[end-of-instance]
[mk-app] #12141 or #11800 #5473
[mk-app] #12142 not #12141
[inst-discovered] theory-solving 0x0 basic# ; #5477
[mk-app] #12143 = #5477 #12142
[instance] 0x0 #12143
[attach-enode] #12143 0
[end-of-instance]
[mk-app] #12143 not #12142
[inst-discovered] theory-solving 0x0 basic# ; #12143
[mk-app] #12144 = #12143 #12141
[instance] 0x0 #12144
[attach-enode] #12144 0
[end-of-instance]
[mk-app] #12142 or #12136 #192 #4044 #11800 #5473 #5478 #5463
[mk-app] #12143 or #12139 #4044 #12141 #5478 #5463
[inst-discovered] theory-solving 0x0 basic# ; #12143
[mk-app] #12144 = #12143 #12142
[instance] 0x0 #12144
[attach-enode] #12144 0
[end-of-instance]
[mk-quant] #12141 user_vstd__std_specs__vec__axiom_vec_has_resolved_0 4 #5468 #12142
[attach-var-names] #12141 (|i!| ; |Poly|) (|vec!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12139 or #5471 #12141
[inst-discovered] theory-solving 0x0 basic# ; #5496
[mk-app] #12140 = #5496 #5496
[instance] 0x0 #12140
[attach-enode] #12140 0
[end-of-instance]
[mk-app] #12140 not #5520
[mk-app] #12143 or #12140 #2996
[mk-app] #12144 not #12143
[inst-discovered] theory-solving 0x0 basic# ; #5521
[mk-app] #12145 = #5521 #12144
[instance] 0x0 #12145
[attach-enode] #12145 0
[end-of-instance]
[mk-app] #12145 not #12144
[inst-discovered] theory-solving 0x0 basic# ; #12145
[mk-app] #12146 = #12145 #12143
[instance] 0x0 #12146
[attach-enode] #12146 0
[end-of-instance]
[mk-app] #12145 or #12140 #2996 #5522
[mk-app] #12146 or #12143 #5522
[inst-discovered] theory-solving 0x0 basic# ; #12146
[mk-app] #12147 = #12146 #12145
[instance] 0x0 #12147
[attach-enode] #12147 0
[end-of-instance]
[mk-quant] #12146 internal_crate__impl_tuple&__Clone2_trait_impl_definition 4 #5524 #12145
[attach-var-names] #12146 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #12143 not #5529
[mk-app] #12144 or #12143 #3003
[mk-app] #12147 not #12144
[inst-discovered] theory-solving 0x0 basic# ; #5530
[mk-app] #12148 = #5530 #12147
[instance] 0x0 #12148
[attach-enode] #12148 0
[end-of-instance]
[mk-app] #12148 not #12147
[inst-discovered] theory-solving 0x0 basic# ; #12148
[mk-app] #12149 = #12148 #12144
[instance] 0x0 #12149
[attach-enode] #12149 0
[end-of-instance]
[mk-app] #12148 or #12143 #3003 #5531
[mk-app] #12149 or #12144 #5531
[inst-discovered] theory-solving 0x0 basic# ; #12149
[mk-app] #12150 = #12149 #12148
[instance] 0x0 #12150
[attach-enode] #12150 0
[end-of-instance]
[mk-quant] #12149 internal_crate__impl_tuple&__Copy2_trait_impl_definition 4 #5533 #12148
[attach-var-names] #12149 (|T%1&| ; |Type|) (|T%1&.| ; |Dcr|) (|T%0&| ; |Type|) (|T%0&.| ; |Dcr|)
[mk-app] #12144 not #5649
[mk-app] #12147 not #5650
[mk-app] #12150 not #5652
[mk-app] #12151 or #12144 #12147 #12150
[mk-app] #12152 not #12151
[inst-discovered] theory-solving 0x0 basic# ; #5678
[mk-app] #12153 = #5678 #12152
[instance] 0x0 #12153
[attach-enode] #12153 0
[end-of-instance]
[mk-app] #12153 not #5643
[mk-app] #12154 not #5647
[mk-app] #12155 or #12153 #12154
[mk-app] #12156 not #12155
[inst-discovered] theory-solving 0x0 basic# ; #5648
[mk-app] #12157 = #5648 #12156
[instance] 0x0 #12157
[attach-enode] #12157 0
[end-of-instance]
[mk-app] #12157 if #5676 #12152 #12156
[mk-app] #12158 or #5670 #12157
[mk-app] #12159 not #5673
[mk-app] #12160 or #5670 #5676 #12159
[mk-app] #12161 not #12160
[inst-discovered] theory-solving 0x0 basic# ; #5681
[mk-app] #12162 = #5681 #12161
[instance] 0x0 #12162
[attach-enode] #12162 0
[end-of-instance]
[mk-app] #12162 not #12161
[inst-discovered] theory-solving 0x0 basic# ; #12162
[mk-app] #12163 = #12162 #12160
[instance] 0x0 #12163
[attach-enode] #12163 0
[end-of-instance]
[mk-app] #12161 not #5683
[mk-app] #12162 or #12161 #5685
[mk-app] #12163 not #12162
[inst-discovered] theory-solving 0x0 basic# ; #5689
[mk-app] #12164 = #5689 #12163
[instance] 0x0 #12164
[attach-enode] #12164 0
[end-of-instance]
[mk-app] #12164 or #5670 #5676 #12159 #12163
[mk-app] #12165 or #12160 #12163
[inst-discovered] theory-solving 0x0 basic# ; #12165
[mk-app] #12166 = #12165 #12164
[instance] 0x0 #12166
[attach-enode] #12166 0
[end-of-instance]
[mk-app] #12160 not #5621
[mk-app] #12165 not #5624
[mk-app] #12166 not #5671
[mk-app] #12167 not #5675
[mk-app] #12168 not #12158
[mk-app] #12169 not #12164
[mk-app] #12170 or #12160 #12165 #12166 #12167 #12168 #12169
[mk-app] #12171 not #12170
[mk-app] #12172 and #5621 #5624 #5671 #5675 #12158 #12164
[inst-discovered] theory-solving 0x0 basic# ; #12172
[mk-app] #12173 = #12172 #12171
[instance] 0x0 #12173
[attach-enode] #12173 0
[end-of-instance]
[mk-app] #12172 = #12170 #5619
[mk-app] #12173 not #12172
[mk-app] #12174 = #5619 #12171
[inst-discovered] theory-solving 0x0 basic# ; #12174
[mk-app] #12175 = #12174 #12173
[instance] 0x0 #12175
[attach-enode] #12175 0
[end-of-instance]
[mk-app] #12171 not #12170
[inst-discovered] theory-solving 0x0 basic# ; #12173
[mk-app] #12171 = #12173 #12173
[instance] 0x0 #12171
[attach-enode] #12171 0
[end-of-instance]
[mk-quant] #12171 internal_ens__core!iter.traits.iterator.Iterator.next._definition 4 #5668 #12173
[attach-var-names] #12171 (|ret!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12174 not #5704
[mk-app] #12175 not #5705
[mk-app] #12176 or #12174 #12175
[mk-app] #12177 not #12176
[inst-discovered] theory-solving 0x0 basic# ; #5706
[mk-app] #12178 = #5706 #12177
[instance] 0x0 #12178
[attach-enode] #12178 0
[end-of-instance]
[mk-app] #12178 not #12177
[inst-discovered] theory-solving 0x0 basic# ; #12178
[mk-app] #12179 = #12178 #12176
[instance] 0x0 #12179
[attach-enode] #12179 0
[end-of-instance]
[mk-app] #12178 not #5741
[mk-app] #12179 not #5742
[mk-app] #12180 not #5744
[mk-app] #12181 or #12178 #12179 #12180
[mk-app] #12182 not #12181
[inst-discovered] theory-solving 0x0 basic# ; #5772
[mk-app] #12183 = #5772 #12182
[instance] 0x0 #12183
[attach-enode] #12183 0
[end-of-instance]
[mk-app] #12183 not #5735
[mk-app] #12184 not #5739
[mk-app] #12185 or #12183 #12184
[mk-app] #12186 not #12185
[inst-discovered] theory-solving 0x0 basic# ; #5740
[mk-app] #12187 = #5740 #12186
[instance] 0x0 #12187
[attach-enode] #12187 0
[end-of-instance]
[mk-app] #12187 if #5770 #12182 #12186
[mk-app] #12188 or #5764 #12187
[mk-app] #12189 not #5767
[mk-app] #12190 or #5764 #5770 #12189
[mk-app] #12191 not #12190
[inst-discovered] theory-solving 0x0 basic# ; #5775
[mk-app] #12192 = #5775 #12191
[instance] 0x0 #12192
[attach-enode] #12192 0
[end-of-instance]
[mk-app] #12192 not #12191
[inst-discovered] theory-solving 0x0 basic# ; #12192
[mk-app] #12193 = #12192 #12190
[instance] 0x0 #12193
[attach-enode] #12193 0
[end-of-instance]
[mk-app] #12191 not #5777
[mk-app] #12192 or #12191 #5779
[mk-app] #12193 not #12192
[inst-discovered] theory-solving 0x0 basic# ; #5783
[mk-app] #12194 = #5783 #12193
[instance] 0x0 #12194
[attach-enode] #12194 0
[end-of-instance]
[mk-app] #12194 or #5764 #5770 #12189 #12193
[mk-app] #12195 or #12190 #12193
[inst-discovered] theory-solving 0x0 basic# ; #12195
[mk-app] #12196 = #12195 #12194
[instance] 0x0 #12196
[attach-enode] #12196 0
[end-of-instance]
[mk-app] #12190 not #5714
[mk-app] #12195 not #5765
[mk-app] #12196 not #5769
[mk-app] #12197 not #12188
[mk-app] #12198 not #12194
[mk-app] #12199 or #12190 #12195 #12196 #12197 #12198
[mk-app] #12200 not #12199
[mk-app] #12201 and #5714 #5765 #5769 #12188 #12194
[inst-discovered] theory-solving 0x0 basic# ; #12201
[mk-app] #12202 = #12201 #12200
[instance] 0x0 #12202
[attach-enode] #12202 0
[end-of-instance]
[mk-app] #12201 or #12174 #12175 #5787 #12200
[mk-app] #12202 or #12176 #5787 #12200
[inst-discovered] theory-solving 0x0 basic# ; #12202
[mk-app] #12203 = #12202 #12201
[instance] 0x0 #12203
[attach-enode] #12203 0
[end-of-instance]
[mk-quant] #12202 user_core__iter__traits__iterator__Iterator__next_1 4 #5762 #12201
[attach-var-names] #12202 (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|) (|ret$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-app] #12176 or #11616 #192
[mk-app] #12177 not #12176
[inst-discovered] theory-solving 0x0 basic# ; #5021
[mk-app] #12203 = #5021 #12177
[instance] 0x0 #12203
[attach-enode] #12203 0
[end-of-instance]
[mk-app] #12203 not #12177
[inst-discovered] theory-solving 0x0 basic# ; #12203
[mk-app] #12204 = #12203 #12176
[instance] 0x0 #12204
[attach-enode] #12204 0
[end-of-instance]
[mk-app] #12203 or #11616 #192 #5778
[mk-app] #12204 or #12176 #5778
[inst-discovered] theory-solving 0x0 basic# ; #12204
[mk-app] #12205 = #12204 #12203
[instance] 0x0 #12205
[attach-enode] #12205 0
[end-of-instance]
[mk-quant] #12204 internal_vstd!std_specs.iter.IteratorSpec.peek.?_pre_post_definition 4 #5792 #12203
[attach-var-names] #12204 (|index!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12176 not #5796
[mk-app] #12177 not #5803
[mk-app] #12205 or #12176 #12177
[mk-app] #12206 not #12205
[inst-discovered] theory-solving 0x0 basic# ; #5804
[mk-app] #12207 = #5804 #12206
[instance] 0x0 #12207
[attach-enode] #12207 0
[end-of-instance]
[mk-app] #12207 = #12205 #5802
[mk-app] #12208 not #12207
[mk-app] #12209 = #5802 #12206
[inst-discovered] theory-solving 0x0 basic# ; #12209
[mk-app] #12210 = #12209 #12208
[instance] 0x0 #12210
[attach-enode] #12210 0
[end-of-instance]
[mk-app] #12206 not #12205
[inst-discovered] theory-solving 0x0 basic# ; #12208
[mk-app] #12206 = #12208 #12208
[instance] 0x0 #12206
[attach-enode] #12206 0
[end-of-instance]
[mk-quant] #12206 internal_ens__core!iter.traits.collect.impl&__0.into_iter._definition 4 #5806 #12208
[attach-var-names] #12206 (|r!| ; |Poly|) (|i!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12209 or #11800 #5876
[mk-app] #12210 not #12209
[inst-discovered] theory-solving 0x0 basic# ; #5880
[mk-app] #12211 = #5880 #12210
[instance] 0x0 #12211
[attach-enode] #12211 0
[end-of-instance]
[mk-app] #12211 not #12210
[inst-discovered] theory-solving 0x0 basic# ; #12211
[mk-app] #12212 = #12211 #12209
[instance] 0x0 #12212
[attach-enode] #12212 0
[end-of-instance]
[mk-app] #12210 or #192 #11800 #5876 #5858
[mk-app] #12211 or #192 #12209 #5858
[inst-discovered] theory-solving 0x0 basic# ; #12211
[mk-app] #12212 = #12211 #12210
[instance] 0x0 #12212
[attach-enode] #12212 0
[end-of-instance]
[mk-quant] #12209 user_vstd__std_specs__iter__impl&%11__wf_0 1 #5861 #12210
[attach-var-names] #12209 (|i$| ; |Poly|)
[mk-app] #12211 not #12209
[mk-app] #12212 or #11263 #12211
[mk-app] #12213 not #12212
[mk-app] #12214 and #5849 #12209
[inst-discovered] theory-solving 0x0 basic# ; #12214
[mk-app] #12215 = #12214 #12213
[instance] 0x0 #12215
[attach-enode] #12215 0
[end-of-instance]
[mk-app] #12214 or #5875 #12213
[mk-app] #12215 not #12214
[mk-app] #12216 or #11260 #11261 #11262 #12215
[mk-app] #12217 not #12216
[mk-app] #12218 and #5871 #5873 #5844 #12214
[inst-discovered] theory-solving 0x0 basic# ; #12218
[mk-app] #12219 = #12218 #12217
[instance] 0x0 #12219
[attach-enode] #12219 0
[end-of-instance]
[mk-app] #12218 or #11259 #12217
[mk-app] #12219 not #11281
[mk-app] #12220 or #12219 #11304
[mk-app] #12221 not #12220
[inst-discovered] theory-solving 0x0 basic# ; #11305
[mk-app] #12222 = #11305 #12221
[instance] 0x0 #12222
[attach-enode] #12222 0
[end-of-instance]
[mk-app] #12222 not #12221
[inst-discovered] theory-solving 0x0 basic# ; #12222
[mk-app] #12223 = #12222 #12220
[instance] 0x0 #12223
[attach-enode] #12223 0
[end-of-instance]
[mk-app] #12221 or #11279 #12219 #11304 #11290
[mk-app] #12222 or #11279 #12220 #11290
[inst-discovered] theory-solving 0x0 basic# ; #12222
[mk-app] #12223 = #12222 #12221
[instance] 0x0 #12223
[attach-enode] #12223 0
[end-of-instance]
[mk-app] #12220 not #12221
[mk-app] #12222 or #11263 #12220
[mk-app] #12223 not #12222
[mk-app] #12224 or #5875 #12223
[mk-app] #12225 not #12224
[mk-app] #12226 and #5847 #12222
[inst-discovered] theory-solving 0x0 basic# ; #12226
[mk-app] #12227 = #12226 #12225
[instance] 0x0 #12227
[attach-enode] #12227 0
[end-of-instance]
[mk-app] #12226 or #5839 #11260 #11261 #11262 #12225
[inst-discovered] theory-solving 0x0 basic# ; #12226
[mk-app] #12227 = #12226 #12226
[instance] 0x0 #12227
[attach-enode] #12227 0
[end-of-instance]
[mk-app] #12227 not #12218
[mk-app] #12228 not #12226
[mk-app] #12229 or #12227 #12228
[mk-app] #12230 not #12229
[mk-app] #12231 and #12218 #12226
[inst-discovered] theory-solving 0x0 basic# ; #12231
[mk-app] #12232 = #12231 #12230
[instance] 0x0 #12232
[attach-enode] #12232 0
[end-of-instance]
[mk-quant] #12231 internal_vstd!std_specs.iter.impl&__11.wf.?_definition 3 #5867 #12230
[attach-var-names] #12231 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12232 or #5888 #12231
[mk-app] #12233 not #5892
[mk-app] #12234 not #5894
[mk-app] #12235 not #5896
[mk-app] #12236 not #5898
[mk-app] #12237 not #5901
[mk-app] #12238 not #5902
[mk-app] #12239 or #12233 #12234 #12235 #12236 #12237 #12238
[mk-app] #12240 not #12239
[inst-discovered] theory-solving 0x0 basic# ; #5903
[mk-app] #12241 = #5903 #12240
[instance] 0x0 #12241
[attach-enode] #12241 0
[end-of-instance]
[mk-app] #12241 = #12239 #5890
[mk-app] #12242 not #12241
[mk-app] #12243 = #5890 #12240
[inst-discovered] theory-solving 0x0 basic# ; #12243
[mk-app] #12244 = #12243 #12242
[instance] 0x0 #12244
[attach-enode] #12244 0
[end-of-instance]
[mk-app] #12240 not #12239
[inst-discovered] theory-solving 0x0 basic# ; #12242
[mk-app] #12240 = #12242 #12242
[instance] 0x0 #12240
[attach-enode] #12240 0
[end-of-instance]
[mk-quant] #12240 internal_ens__vstd!std_specs.iter.impl&__11.new._definition 4 #5905 #12242
[attach-var-names] #12240 (|s!| ; |vstd!std_specs.iter.VerusForLoopWrapper.|) (|iter!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12243 or #5986 #5994
[mk-app] #12244 not #12243
[inst-discovered] theory-solving 0x0 basic# ; #5989
[mk-app] #12245 = #5989 #12244
[instance] 0x0 #12245
[attach-enode] #12245 0
[end-of-instance]
[mk-app] #12245 not #12244
[inst-discovered] theory-solving 0x0 basic# ; #12245
[mk-app] #12246 = #12245 #12243
[instance] 0x0 #12246
[attach-enode] #12246 0
[end-of-instance]
[mk-app] #12244 not #5942
[mk-app] #12245 not #5944
[mk-app] #12246 or #12244 #12245
[mk-app] #12247 not #12246
[inst-discovered] theory-solving 0x0 basic# ; #5945
[mk-app] #12248 = #5945 #12247
[instance] 0x0 #12248
[attach-enode] #12248 0
[end-of-instance]
[mk-app] #12248 or #5986 #5994 #12247
[mk-app] #12249 or #12243 #12247
[inst-discovered] theory-solving 0x0 basic# ; #12249
[mk-app] #12250 = #12249 #12248
[instance] 0x0 #12250
[attach-enode] #12250 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5993
[mk-app] #12243 = #5993 #5993
[instance] 0x0 #12243
[attach-enode] #12243 0
[end-of-instance]
[mk-app] #12243 not #12248
[mk-app] #12249 not #11299
[mk-app] #12250 not #11318
[mk-app] #12251 not #11321
[mk-app] #12252 not #11323
[mk-app] #12253 or #11326 #11327 #11328 #11329 #11330 #12243 #11332 #11333 #11334 #12249 #12250 #12251 #12252
[mk-app] #12254 not #12253
[mk-app] #12255 and #5920 #5923 #5985 #5933 #5987 #12248 #5993 #5992 #5995 #11299 #11318 #11321 #11323
[inst-discovered] theory-solving 0x0 basic# ; #12255
[mk-app] #12256 = #12255 #12254
[instance] 0x0 #12256
[attach-enode] #12256 0
[end-of-instance]
[mk-app] #12255 or #11297 #12254
[mk-app] #12256 not #5960
[mk-app] #12257 not #5965
[mk-app] #12258 not #5968
[mk-app] #12259 not #5973
[mk-app] #12260 or #12256 #12257 #12258 #12259
[mk-app] #12261 not #12260
[inst-discovered] theory-solving 0x0 basic# ; #5996
[mk-app] #12262 = #5996 #12261
[instance] 0x0 #12262
[attach-enode] #12262 0
[end-of-instance]
[mk-app] #12262 not #12261
[inst-discovered] theory-solving 0x0 basic# ; #12262
[mk-app] #12263 = #12262 #12260
[instance] 0x0 #12263
[attach-enode] #12263 0
[end-of-instance]
[mk-quant] #12261 user_vstd__std_specs__iter__impl&%11__next_0 1 #5976 #5977 #12260
[attach-var-names] #12261 (|m$| ; |Poly|)
[mk-app] #12262 or #5919 #11326 #11327 #11328 #11329 #11330 #12243 #11332 #11333 #11334 #12261
[inst-discovered] theory-solving 0x0 basic# ; #12262
[mk-app] #12263 = #12262 #12262
[instance] 0x0 #12263
[attach-enode] #12263 0
[end-of-instance]
[mk-app] #12263 not #12255
[mk-app] #12264 not #12262
[mk-app] #12265 or #12263 #12264
[mk-app] #12266 not #12265
[mk-app] #12267 and #12255 #12262
[inst-discovered] theory-solving 0x0 basic# ; #12267
[mk-app] #12268 = #12267 #12266
[instance] 0x0 #12268
[attach-enode] #12268 0
[end-of-instance]
[mk-quant] #12267 internal_ens__vstd!std_specs.iter.impl&__11.next._definition 4 #5981 #12266
[attach-var-names] #12267 (|ret!| ; |core!option.Option.|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #6054
[mk-app] #12268 = #6054 #6054
[instance] 0x0 #12268
[attach-enode] #12268 0
[end-of-instance]
[mk-app] #12268 not #6060
[mk-app] #12269 or #11617 #12268
[mk-app] #12270 not #12269
[inst-discovered] theory-solving 0x0 basic# ; #6061
[mk-app] #12271 = #6061 #12270
[instance] 0x0 #12271
[attach-enode] #12271 0
[end-of-instance]
[mk-app] #12271 = #12269 #6057
[mk-app] #12272 not #12271
[mk-app] #12273 = #6057 #12270
[inst-discovered] theory-solving 0x0 basic# ; #12273
[mk-app] #12274 = #12273 #12272
[instance] 0x0 #12274
[attach-enode] #12274 0
[end-of-instance]
[mk-app] #12270 not #12269
[inst-discovered] theory-solving 0x0 basic# ; #12272
[mk-app] #12270 = #12272 #12272
[instance] 0x0 #12270
[attach-enode] #12270 0
[end-of-instance]
[mk-quant] #12270 internal_ens__core!option.impl&__0.unwrap._definition 4 #6063 #12272
[attach-var-names] #12270 (|t!| ; |Poly|) (|option!| ; |core!option.Option.|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12273 not #6079
[mk-app] #12274 or #12273 #11617
[mk-app] #12275 not #12274
[inst-discovered] theory-solving 0x0 basic# ; #6080
[mk-app] #12276 = #6080 #12275
[instance] 0x0 #12276
[attach-enode] #12276 0
[end-of-instance]
[mk-app] #12276 not #12275
[inst-discovered] theory-solving 0x0 basic# ; #12276
[mk-app] #12277 = #12276 #12274
[instance] 0x0 #12277
[attach-enode] #12277 0
[end-of-instance]
[mk-app] #12276 or #12273 #11617 #6081
[mk-app] #12277 or #12274 #6081
[inst-discovered] theory-solving 0x0 basic# ; #12277
[mk-app] #12278 = #12277 #12276
[instance] 0x0 #12278
[attach-enode] #12278 0
[end-of-instance]
[mk-quant] #12277 internal_vstd!std_specs.option.spec_unwrap_or.?_pre_post_definition 4 #6071 #12276
[attach-var-names] #12277 (|default!| ; |Poly|) (|option!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12274 not #6088
[mk-app] #12275 not #6091
[mk-app] #12278 or #12274 #12275
[mk-app] #12279 not #12278
[inst-discovered] theory-solving 0x0 basic# ; #6092
[mk-app] #12280 = #6092 #12279
[instance] 0x0 #12280
[attach-enode] #12280 0
[end-of-instance]
[mk-app] #12280 = #12278 #6087
[mk-app] #12281 not #12280
[mk-app] #12282 = #6087 #12279
[inst-discovered] theory-solving 0x0 basic# ; #12282
[mk-app] #12283 = #12282 #12281
[instance] 0x0 #12283
[attach-enode] #12283 0
[end-of-instance]
[mk-app] #12279 not #12278
[inst-discovered] theory-solving 0x0 basic# ; #12281
[mk-app] #12279 = #12281 #12281
[instance] 0x0 #12279
[attach-enode] #12279 0
[end-of-instance]
[mk-quant] #12279 internal_ens__core!iter.range.impl&__6.next._definition 4 #6094 #12281
[attach-var-names] #12279 (|r!| ; |Poly|) (|range!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12282 not #6096
[mk-app] #12283 not #6097
[mk-app] #12284 or #12282 #12283
[mk-app] #12285 not #12284
[inst-discovered] theory-solving 0x0 basic# ; #6098
[mk-app] #12286 = #6098 #12285
[instance] 0x0 #12286
[attach-enode] #12286 0
[end-of-instance]
[mk-app] #12286 not #12285
[inst-discovered] theory-solving 0x0 basic# ; #12286
[mk-app] #12287 = #12286 #12284
[instance] 0x0 #12287
[attach-enode] #12287 0
[end-of-instance]
[mk-app] #12286 or #12282 #12283 #6107 #6102
[mk-app] #12287 or #12284 #6107 #6102
[inst-discovered] theory-solving 0x0 basic# ; #12287
[mk-app] #12288 = #12287 #12286
[instance] 0x0 #12288
[attach-enode] #12288 0
[end-of-instance]
[mk-quant] #12287 user_core__iter__range__impl&%6__next_0 4 #6105 #12286
[attach-var-names] #12287 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|r$| ; |Poly|) (|closure%$| ; |Poly|)
[mk-app] #12284 or #4424 #4521
[mk-app] #12285 not #12284
[inst-discovered] theory-solving 0x0 basic# ; #5436
[mk-app] #12288 = #5436 #12285
[instance] 0x0 #12288
[attach-enode] #12288 0
[end-of-instance]
[mk-app] #12288 not #12285
[inst-discovered] theory-solving 0x0 basic# ; #12288
[mk-app] #12289 = #12288 #12284
[instance] 0x0 #12289
[attach-enode] #12289 0
[end-of-instance]
[mk-app] #12288 or #4424 #4521 #6136
[mk-app] #12289 or #12284 #6136
[inst-discovered] theory-solving 0x0 basic# ; #12289
[mk-app] #12290 = #12289 #12288
[instance] 0x0 #12290
[attach-enode] #12290 0
[end-of-instance]
[mk-quant] #12289 internal_vstd!std_specs.result.impl&__0.arrow_Ok_0.?_definition 5 #6138 #12288
[attach-var-names] #12289 (|self!| ; |Poly|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12284 or #6144 #12289
[inst-discovered] theory-solving 0x0 basic# ; #3107
[mk-app] #12285 = #3107 #11709
[instance] 0x0 #12285
[attach-enode] #12285 0
[end-of-instance]
[mk-app] #12285 not #11709
[inst-discovered] theory-solving 0x0 basic# ; #12285
[mk-app] #12290 = #12285 #11708
[instance] 0x0 #12290
[attach-enode] #12290 0
[end-of-instance]
[mk-app] #12285 or #4044 #3188 #6147
[mk-app] #12290 or #11708 #6147
[inst-discovered] theory-solving 0x0 basic# ; #12290
[mk-app] #12291 = #12290 #12285
[instance] 0x0 #12291
[attach-enode] #12291 0
[end-of-instance]
[mk-quant] #12290 internal_vstd__std_specs__result__impl&__0_trait_impl_definition 4 #6149 #12285
[attach-var-names] #12290 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #6161
[mk-app] #12291 = #6161 #6161
[instance] 0x0 #12291
[attach-enode] #12291 0
[end-of-instance]
[mk-app] #12291 not #6169
[mk-app] #12292 or #11986 #12291
[mk-app] #12293 not #12292
[inst-discovered] theory-solving 0x0 basic# ; #6170
[mk-app] #12294 = #6170 #12293
[instance] 0x0 #12294
[attach-enode] #12294 0
[end-of-instance]
[mk-app] #12294 = #12292 #6165
[mk-app] #12295 not #12294
[mk-app] #12296 = #6165 #12293
[inst-discovered] theory-solving 0x0 basic# ; #12296
[mk-app] #12297 = #12296 #12295
[instance] 0x0 #12297
[attach-enode] #12297 0
[end-of-instance]
[mk-app] #12293 not #12292
[inst-discovered] theory-solving 0x0 basic# ; #12295
[mk-app] #12293 = #12295 #12295
[instance] 0x0 #12293
[attach-enode] #12293 0
[end-of-instance]
[mk-quant] #12293 internal_ens__core!result.impl&__0.unwrap._definition 6 #6172 #12295
[attach-var-names] #12293 (|t!| ; |Poly|) (|result!| ; |core!result.Result.|) (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12296 or #11800 #6215
[mk-app] #12297 not #12296
[inst-discovered] theory-solving 0x0 basic# ; #6219
[mk-app] #12298 = #6219 #12297
[instance] 0x0 #12298
[attach-enode] #12298 0
[end-of-instance]
[mk-app] #12298 if #12296 #1714 #6205
[mk-app] #12299 if #12297 #6205 #1714
[inst-discovered] theory-solving 0x0 datatype# ; #12299
[mk-app] #12300 = #12299 #12298
[instance] 0x0 #12300
[attach-enode] #12300 0
[end-of-instance]
[mk-app] #12297 Poly%core!option.Option. #12298
[mk-app] #12299 = #6199 #12297
[mk-app] #12300 or #4044 #12299
[mk-quant] #12301 internal_vstd!std_specs.slice.impl&__10.peek.?_definition 4 #6210 #12300
[attach-var-names] #12301 (|index!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12302 or #6213 #12301
[mk-app] #12303 not #6285
[mk-app] #12304 not #6288
[mk-app] #12305 not #6291
[mk-app] #12306 not #6299
[mk-app] #12307 or #12303 #12304 #12305 #12306
[mk-app] #12308 not #12307
[inst-discovered] theory-solving 0x0 basic# ; #6300
[mk-app] #12309 = #6300 #12308
[instance] 0x0 #12309
[attach-enode] #12309 0
[end-of-instance]
[mk-app] #12309 = #12307 #6284
[mk-app] #12310 not #12309
[mk-app] #12311 = #6284 #12308
[inst-discovered] theory-solving 0x0 basic# ; #12311
[mk-app] #12312 = #12311 #12310
[instance] 0x0 #12312
[attach-enode] #12312 0
[end-of-instance]
[mk-app] #12308 not #12307
[inst-discovered] theory-solving 0x0 basic# ; #12310
[mk-app] #12308 = #12310 #12310
[instance] 0x0 #12308
[attach-enode] #12308 0
[end-of-instance]
[mk-quant] #12308 internal_ens__core!slice.iter.impl&__1.into_iter._definition 4 #6297 #12310
[attach-var-names] #12308 (|iter!| ; |Poly|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12311 not #6325
[mk-app] #12312 or #6117 #12311
[mk-app] #12313 not #12312
[inst-discovered] theory-solving 0x0 basic# ; #6326
[mk-app] #12314 = #6326 #12313
[instance] 0x0 #12314
[attach-enode] #12314 0
[end-of-instance]
[mk-app] #12314 = #12312 #6313
[mk-app] #12315 not #12314
[mk-app] #12316 = #6313 #12313
[inst-discovered] theory-solving 0x0 basic# ; #12316
[mk-app] #12317 = #12316 #12315
[instance] 0x0 #12317
[attach-enode] #12317 0
[end-of-instance]
[mk-app] #12313 not #12312
[inst-discovered] theory-solving 0x0 basic# ; #12315
[mk-app] #12313 = #12315 #12315
[instance] 0x0 #12313
[attach-enode] #12313 0
[end-of-instance]
[mk-quant] #12313 internal_ens__vstd!std_specs.vec.vec_index._definition 7 #6328 #12315
[attach-var-names] #12313 (|element!| ; |Poly|) (|i!| ; |Int|) (|vec!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12316 not #6332
[mk-app] #12317 or #10993 #12316
[mk-app] #12318 not #12317
[inst-discovered] theory-solving 0x0 basic# ; #5427
[mk-app] #12319 = #5427 #12318
[instance] 0x0 #12319
[attach-enode] #12319 0
[end-of-instance]
[mk-app] #12319 = #12317 #6330
[mk-app] #12320 not #12319
[mk-app] #12321 = #6330 #12318
[inst-discovered] theory-solving 0x0 basic# ; #12321
[mk-app] #12322 = #12321 #12320
[instance] 0x0 #12322
[attach-enode] #12322 0
[end-of-instance]
[mk-app] #12318 not #12317
[inst-discovered] theory-solving 0x0 basic# ; #12320
[mk-app] #12318 = #12320 #12320
[instance] 0x0 #12318
[attach-enode] #12318 0
[end-of-instance]
[mk-quant] #12318 internal_ens__alloc!vec.impl&__1.len._definition 6 #6335 #12320
[attach-var-names] #12318 (|len!| ; |Int|) (|vec!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12321 not #6339
[mk-app] #12322 or #5495 #12321
[mk-app] #12323 not #12322
[inst-discovered] theory-solving 0x0 basic# ; #6340
[mk-app] #12324 = #6340 #12323
[instance] 0x0 #12324
[attach-enode] #12324 0
[end-of-instance]
[mk-app] #12324 = #12322 #6337
[mk-app] #12325 not #12324
[mk-app] #12326 = #6337 #12323
[inst-discovered] theory-solving 0x0 basic# ; #12326
[mk-app] #12327 = #12326 #12325
[instance] 0x0 #12327
[attach-enode] #12327 0
[end-of-instance]
[mk-app] #12323 not #12322
[inst-discovered] theory-solving 0x0 basic# ; #12325
[mk-app] #12323 = #12325 #12325
[instance] 0x0 #12323
[attach-enode] #12323 0
[end-of-instance]
[mk-quant] #12323 internal_ens__alloc!vec.impl&__0.new._definition 3 #6342 #12325
[attach-var-names] #12323 (|v!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12326 or #4424 #4521 #12132
[mk-app] #12327 not #12326
[inst-discovered] theory-solving 0x0 basic# ; #5446
[mk-app] #12328 = #5446 #12327
[instance] 0x0 #12328
[attach-enode] #12328 0
[end-of-instance]
[mk-app] #12328 not #12327
[inst-discovered] theory-solving 0x0 basic# ; #12328
[mk-app] #12329 = #12328 #12326
[instance] 0x0 #12329
[attach-enode] #12329 0
[end-of-instance]
[mk-app] #12328 or #4424 #4521 #12132 #6357
[mk-app] #12329 or #12326 #6357
[inst-discovered] theory-solving 0x0 basic# ; #12329
[mk-app] #12330 = #12329 #12328
[instance] 0x0 #12330
[attach-enode] #12330 0
[end-of-instance]
[mk-quant] #12329 internal_vstd!std_specs.vec.impl&__3.obeys_prophetic_iter_laws.?_definition 5 #6359 #12328
[attach-var-names] #12329 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12326 or #6364 #12329
[mk-app] #12327 not #6368
[mk-app] #12330 or #11744 #4044 #12327
[mk-app] #12331 not #12330
[inst-discovered] theory-solving 0x0 basic# ; #6369
[mk-app] #12332 = #6369 #12331
[instance] 0x0 #12332
[attach-enode] #12332 0
[end-of-instance]
[mk-app] #12332 not #12331
[inst-discovered] theory-solving 0x0 basic# ; #12332
[mk-app] #12333 = #12332 #12330
[instance] 0x0 #12333
[attach-enode] #12333 0
[end-of-instance]
[mk-app] #12332 or #11800 #6387
[mk-app] #12333 not #12332
[inst-discovered] theory-solving 0x0 basic# ; #6391
[mk-app] #12334 = #6391 #12333
[instance] 0x0 #12334
[attach-enode] #12334 0
[end-of-instance]
[mk-app] #12334 if #12332 #1714 #6377
[mk-app] #12335 if #12333 #6377 #1714
[inst-discovered] theory-solving 0x0 datatype# ; #12335
[mk-app] #12336 = #12335 #12334
[instance] 0x0 #12336
[attach-enode] #12336 0
[end-of-instance]
[mk-app] #12333 Poly%core!option.Option. #12334
[mk-app] #12335 = #6371 #12333
[mk-app] #12336 or #11744 #4044 #12327 #12335
[mk-app] #12337 or #12330 #12335
[inst-discovered] theory-solving 0x0 basic# ; #12337
[mk-app] #12338 = #12337 #12336
[instance] 0x0 #12338
[attach-enode] #12338 0
[end-of-instance]
[mk-quant] #12337 internal_vstd!std_specs.vec.impl&__3.peek.?_definition 6 #6382 #12336
[attach-var-names] #12337 (|index!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12330 or #6385 #12337
[mk-app] #12331 or #4044 #3188 #10314
[mk-app] #12338 not #12331
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #12339 = #3269 #12338
[instance] 0x0 #12339
[attach-enode] #12339 0
[end-of-instance]
[mk-app] #12339 not #12338
[inst-discovered] theory-solving 0x0 basic# ; #12339
[mk-app] #12340 = #12339 #12331
[instance] 0x0 #12340
[attach-enode] #12340 0
[end-of-instance]
[mk-app] #12339 or #4044 #3188 #10314 #6398
[mk-app] #12340 or #12331 #6398
[inst-discovered] theory-solving 0x0 basic# ; #12340
[mk-app] #12341 = #12340 #12339
[instance] 0x0 #12341
[attach-enode] #12341 0
[end-of-instance]
[mk-quant] #12340 internal_alloc__vec__into_iter__impl&__6_trait_impl_definition 4 #6400 #12339
[attach-var-names] #12340 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12331 or #4044 #3188 #10314
[mk-app] #12338 not #12331
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #12341 = #3269 #12338
[instance] 0x0 #12341
[attach-enode] #12341 0
[end-of-instance]
[mk-app] #12341 not #12338
[inst-discovered] theory-solving 0x0 basic# ; #12341
[mk-app] #12342 = #12341 #12331
[instance] 0x0 #12342
[attach-enode] #12342 0
[end-of-instance]
[mk-app] #12341 or #4044 #3188 #10314 #6404
[mk-app] #12342 or #12331 #6404
[inst-discovered] theory-solving 0x0 basic# ; #12342
[mk-app] #12343 = #12342 #12341
[instance] 0x0 #12343
[attach-enode] #12343 0
[end-of-instance]
[mk-quant] #12342 internal_vstd__std_specs__vec__impl&__3_trait_impl_definition 4 #6406 #12341
[attach-var-names] #12342 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12331 not #6411
[mk-app] #12338 not #6413
[mk-app] #12343 not #6415
[mk-app] #12344 not #6423
[mk-app] #12345 or #12331 #12338 #12343 #12344
[mk-app] #12346 not #12345
[inst-discovered] theory-solving 0x0 basic# ; #6424
[mk-app] #12347 = #6424 #12346
[instance] 0x0 #12347
[attach-enode] #12347 0
[end-of-instance]
[mk-app] #12347 = #12345 #6410
[mk-app] #12348 not #12347
[mk-app] #12349 = #6410 #12346
[inst-discovered] theory-solving 0x0 basic# ; #12349
[mk-app] #12350 = #12349 #12348
[instance] 0x0 #12350
[attach-enode] #12350 0
[end-of-instance]
[mk-app] #12346 not #12345
[inst-discovered] theory-solving 0x0 basic# ; #12348
[mk-app] #12346 = #12348 #12348
[instance] 0x0 #12346
[attach-enode] #12346 0
[end-of-instance]
[mk-quant] #12346 internal_ens__alloc!vec.impl&__17.into_iter._definition 6 #6421 #12348
[attach-var-names] #12346 (|iter!| ; |Poly|) (|vec!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12349 not #6428
[mk-app] #12350 not #6432
[mk-app] #12351 not #6435
[mk-app] #12352 not #6443
[mk-app] #12353 or #12349 #12350 #12351 #12352
[mk-app] #12354 not #12353
[inst-discovered] theory-solving 0x0 basic# ; #6444
[mk-app] #12355 = #6444 #12354
[instance] 0x0 #12355
[attach-enode] #12355 0
[end-of-instance]
[mk-app] #12355 = #12353 #6427
[mk-app] #12356 not #12355
[mk-app] #12357 = #6427 #12354
[inst-discovered] theory-solving 0x0 basic# ; #12357
[mk-app] #12358 = #12357 #12356
[instance] 0x0 #12358
[attach-enode] #12358 0
[end-of-instance]
[mk-app] #12354 not #12353
[inst-discovered] theory-solving 0x0 basic# ; #12356
[mk-app] #12354 = #12356 #12356
[instance] 0x0 #12354
[attach-enode] #12354 0
[end-of-instance]
[mk-quant] #12354 internal_ens__alloc!vec.impl&__18.into_iter._definition 6 #6441 #12356
[attach-var-names] #12354 (|iter!| ; |Poly|) (|vec!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12357 not #6448
[mk-app] #12358 not #6450
[mk-app] #12359 or #12357 #12358 #12352
[mk-app] #12360 not #12359
[inst-discovered] theory-solving 0x0 basic# ; #6455
[mk-app] #12361 = #6455 #12360
[instance] 0x0 #12361
[attach-enode] #12361 0
[end-of-instance]
[mk-app] #12361 = #12359 #6447
[mk-app] #12362 not #12361
[mk-app] #12363 = #6447 #12360
[inst-discovered] theory-solving 0x0 basic# ; #12363
[mk-app] #12364 = #12363 #12362
[instance] 0x0 #12364
[attach-enode] #12364 0
[end-of-instance]
[mk-app] #12360 not #12359
[inst-discovered] theory-solving 0x0 basic# ; #12362
[mk-app] #12360 = #12362 #12362
[instance] 0x0 #12360
[attach-enode] #12360 0
[end-of-instance]
[mk-quant] #12360 internal_ens__core!array.impl&__13.into_iter._definition 6 #6453 #12362
[attach-var-names] #12360 (|iter!| ; |Poly|) (|s!| ; |Poly|) (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12363 or #11854 #192
[mk-app] #12364 not #12363
[inst-discovered] theory-solving 0x0 basic# ; #3895
[mk-app] #12365 = #3895 #12364
[instance] 0x0 #12365
[attach-enode] #12365 0
[end-of-instance]
[mk-app] #12365 not #12364
[inst-discovered] theory-solving 0x0 basic# ; #12365
[mk-app] #12366 = #12365 #12363
[instance] 0x0 #12366
[attach-enode] #12366 0
[end-of-instance]
[mk-app] #12365 or #11854 #192 #6481
[mk-app] #12366 or #12363 #6481
[inst-discovered] theory-solving 0x0 basic# ; #12366
[mk-app] #12367 = #12366 #12365
[instance] 0x0 #12367
[attach-enode] #12367 0
[end-of-instance]
[mk-quant] #12366 internal_vstd!seq.impl&__2.skip.?_pre_post_definition 4 #6476 #12365
[attach-var-names] #12366 (|n!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12363 not #6632
[mk-app] #12364 or #6641 #12363
[mk-app] #12367 not #12364
[inst-discovered] theory-solving 0x0 basic# ; #6643
[mk-app] #12368 = #6643 #12367
[instance] 0x0 #12368
[attach-enode] #12368 0
[end-of-instance]
[mk-app] #12368 if #12364 #6635 #6634
[mk-app] #12369 if #12367 #6634 #6635
[inst-discovered] theory-solving 0x0 user-sort# ; #12369
[mk-app] #12370 = #12369 #12368
[instance] 0x0 #12370
[attach-enode] #12370 0
[end-of-instance]
[mk-app] #12367 = #6630 #12368
[mk-app] #12369 or #6500 #12367
[mk-quant] #12370 internal_u_tokenizer!text.end_trimmed._fuel_to_body_definition 2 #6639 #12369
[attach-var-names] #12370 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #12371 not #6670
[mk-app] #12372 or #6641 #12371
[mk-app] #12373 not #12372
[inst-discovered] theory-solving 0x0 basic# ; #6680
[mk-app] #12374 = #6680 #12373
[instance] 0x0 #12374
[attach-enode] #12374 0
[end-of-instance]
[mk-app] #12374 if #12372 #6635 #6674
[mk-app] #12375 if #12373 #6674 #6635
[inst-discovered] theory-solving 0x0 user-sort# ; #12375
[mk-app] #12376 = #12375 #12374
[instance] 0x0 #12376
[attach-enode] #12376 0
[end-of-instance]
[mk-app] #12373 = #6668 #12374
[mk-app] #12375 or #6500 #12373
[mk-quant] #12376 internal_u_tokenizer!text.start_trimmed._fuel_to_body_definition 2 #6678 #12375
[attach-var-names] #12376 (|fuel%| ; |Fuel|) (|s!| ; |Poly|)
[mk-app] #12377 not #6705
[mk-app] #12378 or #1691 #12377
[mk-app] #12379 not #12378
[inst-discovered] theory-solving 0x0 basic# ; #6706
[mk-app] #12380 = #6706 #12379
[instance] 0x0 #12380
[attach-enode] #12380 0
[end-of-instance]
[mk-app] #12380 = #12378 #6699
[mk-app] #12381 not #12380
[mk-app] #12382 = #6699 #12379
[inst-discovered] theory-solving 0x0 basic# ; #12382
[mk-app] #12383 = #12382 #12381
[instance] 0x0 #12383
[attach-enode] #12383 0
[end-of-instance]
[mk-app] #12379 not #12378
[inst-discovered] theory-solving 0x0 basic# ; #12381
[mk-app] #12379 = #12381 #12381
[instance] 0x0 #12379
[attach-enode] #12379 0
[end-of-instance]
[mk-quant] #12379 internal_ens__u_tokenizer!text.StrShim.trim_._definition 4 #6708 #12381
[attach-var-names] #12379 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12382 or #11854 #192
[mk-app] #12383 not #12382
[inst-discovered] theory-solving 0x0 basic# ; #3895
[mk-app] #12384 = #3895 #12383
[instance] 0x0 #12384
[attach-enode] #12384 0
[end-of-instance]
[mk-app] #12384 not #12383
[inst-discovered] theory-solving 0x0 basic# ; #12384
[mk-app] #12385 = #12384 #12382
[instance] 0x0 #12385
[attach-enode] #12385 0
[end-of-instance]
[mk-app] #12384 or #11854 #192 #6720
[mk-app] #12385 or #12382 #6720
[inst-discovered] theory-solving 0x0 basic# ; #12385
[mk-app] #12386 = #12385 #12384
[instance] 0x0 #12386
[attach-enode] #12386 0
[end-of-instance]
[mk-quant] #12385 internal_vstd!seq.impl&__2.take.?_pre_post_definition 4 #6715 #12384
[attach-var-names] #12385 (|n!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12382 not #6738
[mk-app] #12383 or #1349 #12382
[mk-app] #12386 not #12383
[inst-discovered] theory-solving 0x0 basic# ; #6739
[mk-app] #12387 = #6739 #12386
[instance] 0x0 #12387
[attach-enode] #12387 0
[end-of-instance]
[mk-app] #12387 = #12383 #6736
[mk-app] #12388 not #12387
[mk-app] #12389 = #6736 #12386
[inst-discovered] theory-solving 0x0 basic# ; #12389
[mk-app] #12390 = #12389 #12388
[instance] 0x0 #12390
[attach-enode] #12390 0
[end-of-instance]
[mk-app] #12386 not #12383
[inst-discovered] theory-solving 0x0 basic# ; #12388
[mk-app] #12386 = #12388 #12388
[instance] 0x0 #12386
[attach-enode] #12386 0
[end-of-instance]
[mk-quant] #12386 internal_ens__u_tokenizer!text.StrShim.owned_._definition 4 #6741 #12388
[attach-var-names] #12386 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12389 not #6758
[mk-app] #12390 not #6760
[mk-app] #12391 not #6763
[mk-app] #12392 not #6766
[mk-app] #12393 or #12389 #12390 #12391 #12392
[mk-app] #12394 not #12393
[inst-discovered] theory-solving 0x0 basic# ; #6767
[mk-app] #12395 = #6767 #12394
[instance] 0x0 #12395
[attach-enode] #12395 0
[end-of-instance]
[mk-app] #12395 = #12393 #6752
[mk-app] #12396 not #12395
[mk-app] #12397 = #6752 #12394
[inst-discovered] theory-solving 0x0 basic# ; #12397
[mk-app] #12398 = #12397 #12396
[instance] 0x0 #12398
[attach-enode] #12398 0
[end-of-instance]
[mk-app] #12394 not #12393
[inst-discovered] theory-solving 0x0 basic# ; #12396
[mk-app] #12394 = #12396 #12396
[instance] 0x0 #12394
[attach-enode] #12394 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6755
[mk-app] #12394 = #6755 #6755
[instance] 0x0 #12394
[attach-enode] #12394 0
[end-of-instance]
[mk-app] #12394 not #6783
[mk-app] #12397 or #11800 #11437 #12394
[mk-app] #12398 not #12397
[inst-discovered] theory-solving 0x0 basic# ; #6792
[mk-app] #12399 = #6792 #12398
[instance] 0x0 #12399
[attach-enode] #12399 0
[end-of-instance]
[mk-app] #12399 = #12397 #6778
[mk-app] #12400 not #12399
[mk-app] #12401 = #6778 #12398
[inst-discovered] theory-solving 0x0 basic# ; #12401
[mk-app] #12402 = #12401 #12400
[instance] 0x0 #12402
[attach-enode] #12402 0
[end-of-instance]
[mk-app] #12398 not #12397
[inst-discovered] theory-solving 0x0 basic# ; #12400
[mk-app] #12398 = #12400 #12400
[instance] 0x0 #12398
[attach-enode] #12398 0
[end-of-instance]
[mk-quant] #12398 internal_u_tokenizer!text.is_at.?_definition 3 #6786 #12400
[attach-var-names] #12398 (|i!| ; |Poly|) (|n!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #12401 or #6795 #12398
[mk-app] #12402 not #11337
[mk-app] #12403 not #11339
[mk-app] #12404 or #12402 #12403
[mk-app] #12405 not #12404
[inst-discovered] theory-solving 0x0 basic# ; #11340
[mk-app] #12406 = #11340 #12405
[instance] 0x0 #12406
[attach-enode] #12406 0
[end-of-instance]
[mk-app] #12406 or #11325 #12405
[mk-app] #12407 not #6778
[mk-app] #12408 or #192 #12407
[mk-app] #12409 not #12408
[inst-discovered] theory-solving 0x0 basic# ; #6800
[mk-app] #12410 = #6800 #12409
[instance] 0x0 #12410
[attach-enode] #12410 0
[end-of-instance]
[mk-app] #12410 not #12409
[inst-discovered] theory-solving 0x0 basic# ; #12410
[mk-app] #12411 = #12410 #12408
[instance] 0x0 #12411
[attach-enode] #12411 0
[end-of-instance]
[mk-quant] #12410 user_u_tokenizer__text__boundary_0 1 #6786 #12408
[attach-var-names] #12410 (|i$| ; |Poly|)
[mk-app] #12409 or #6799 #12410
[mk-app] #12411 not #12406
[mk-app] #12412 not #12409
[mk-app] #12413 or #12411 #12412
[mk-app] #12414 not #12413
[mk-app] #12415 and #12406 #12409
[inst-discovered] theory-solving 0x0 basic# ; #12415
[mk-app] #12416 = #12415 #12414
[instance] 0x0 #12416
[attach-enode] #12416 0
[end-of-instance]
[mk-quant] #12415 internal_u_tokenizer!text.boundary.?_definition 2 #6803 #12414
[attach-var-names] #12415 (|n!| ; |Poly|) (|s!| ; |Poly|)
[mk-app] #12416 or #6806 #12415
[mk-app] #12417 not #6809
[mk-app] #12418 or #6117 #12417
[mk-app] #12419 not #12418
[inst-discovered] theory-solving 0x0 basic# ; #6810
[mk-app] #12420 = #6810 #12419
[instance] 0x0 #12420
[attach-enode] #12420 0
[end-of-instance]
[mk-app] #12420 not #12419
[inst-discovered] theory-solving 0x0 basic# ; #12420
[mk-app] #12421 = #12420 #12418
[instance] 0x0 #12421
[attach-enode] #12421 0
[end-of-instance]
[mk-quant] #12420 user_u_tokenizer__text__ci_0 1 #6786 #12418
[attach-var-names] #12420 (|i$| ; |Poly|)
[mk-app] #12419 not #11356
[mk-app] #12421 not #11357
[mk-app] #12422 not #11358
[mk-app] #12423 or #12419 #12421 #12422
[mk-app] #12424 not #12423
[inst-discovered] theory-solving 0x0 basic# ; #11359
[mk-app] #12425 = #11359 #12424
[instance] 0x0 #12425
[attach-enode] #12425 0
[end-of-instance]
[mk-app] #12425 or #12420 #12424
[inst-discovered] theory-solving 0x0 basic# ; #12425
[mk-app] #12426 = #12425 #12425
[instance] 0x0 #12426
[attach-enode] #12426 0
[end-of-instance]
[mk-quant] #12426 k!10301 5 #6818 #12425
[attach-var-names] #12426 (|%%hole%%4| ; |Poly|) (|%%hole%%3| ; |Poly|) (|%%hole%%2| ; |Poly|) (|%%hole%%1| ; |Poly|) (|%%hole%%0| ; |Type|)
[mk-app] #12427 not #6852
[mk-app] #12428 not #6854
[mk-app] #12429 not #6857
[mk-app] #12430 or #12427 #12428 #12429
[mk-app] #12431 not #12430
[inst-discovered] theory-solving 0x0 basic# ; #6858
[mk-app] #12432 = #6858 #12431
[instance] 0x0 #12432
[attach-enode] #12432 0
[end-of-instance]
[mk-app] #12432 = #12430 #6836
[mk-app] #12433 not #12432
[mk-app] #12434 = #6836 #12431
[inst-discovered] theory-solving 0x0 basic# ; #12434
[mk-app] #12435 = #12434 #12433
[instance] 0x0 #12435
[attach-enode] #12435 0
[end-of-instance]
[mk-app] #12431 not #12430
[inst-discovered] theory-solving 0x0 basic# ; #12433
[mk-app] #12431 = #12433 #12433
[instance] 0x0 #12431
[attach-enode] #12431 0
[end-of-instance]
[mk-quant] #12431 internal_req__u_tokenizer!textfn.slice._definition 5 #6849 #12433
[attach-var-names] #12431 (|b!| ; |Int|) (|a!| ; |Int|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12434 not #6920
[mk-app] #12435 not #6921
[mk-app] #12436 or #12434 #12435
[mk-app] #12437 not #12436
[inst-discovered] theory-solving 0x0 basic# ; #6922
[mk-app] #12438 = #6922 #12437
[instance] 0x0 #12438
[attach-enode] #12438 0
[end-of-instance]
[mk-app] #12438 not #12437
[inst-discovered] theory-solving 0x0 basic# ; #12438
[mk-app] #12439 = #12438 #12436
[instance] 0x0 #12439
[attach-enode] #12439 0
[end-of-instance]
[mk-app] #12438 or #12434 #12435 #6923
[mk-app] #12439 or #12436 #6923
[inst-discovered] theory-solving 0x0 basic# ; #12439
[mk-app] #12440 = #12439 #12438
[instance] 0x0 #12440
[attach-enode] #12440 0
[end-of-instance]
[mk-quant] #12439 internal_vstd!seq_lib.impl&__0.map_values.?_pre_post_definition 6 #6915 #12438
[attach-var-names] #12439 (|f!| ; |Poly|) (|self!| ; |Poly|) (|B&| ; |Type|) (|B&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12436 not #6931
[mk-app] #12437 not #6945
[mk-app] #12440 or #12436 #12437
[mk-app] #12441 not #12440
[inst-discovered] theory-solving 0x0 basic# ; #6946
[mk-app] #12442 = #6946 #12441
[instance] 0x0 #12442
[attach-enode] #12442 0
[end-of-instance]
[mk-app] #12442 = #12440 #6929
[mk-app] #12443 not #12442
[mk-app] #12444 = #6929 #12441
[inst-discovered] theory-solving 0x0 basic# ; #12444
[mk-app] #12445 = #12444 #12443
[instance] 0x0 #12445
[attach-enode] #12445 0
[end-of-instance]
[mk-app] #12441 not #12440
[inst-discovered] theory-solving 0x0 basic# ; #12443
[mk-app] #12441 = #12443 #12443
[instance] 0x0 #12441
[attach-enode] #12441 0
[end-of-instance]
[mk-quant] #12441 internal_ens__u_tokenizer!textfn.first._definition 4 #6940 #12443
[attach-var-names] #12441 (|r!| ; |core!option.Option.|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12444 not #6977
[mk-app] #12445 not #11034
[mk-app] #12446 or #10993 #12444 #12445
[mk-app] #12447 not #12446
[inst-discovered] theory-solving 0x0 basic# ; #11035
[mk-app] #12448 = #11035 #12447
[instance] 0x0 #12448
[attach-enode] #12448 0
[end-of-instance]
[mk-app] #12448 = #12446 #6974
[mk-app] #12449 not #12448
[mk-app] #12450 = #6974 #12447
[inst-discovered] theory-solving 0x0 basic# ; #12450
[mk-app] #12451 = #12450 #12449
[instance] 0x0 #12451
[attach-enode] #12451 0
[end-of-instance]
[mk-app] #12447 not #12446
[inst-discovered] theory-solving 0x0 basic# ; #12449
[mk-app] #12447 = #12449 #12449
[instance] 0x0 #12447
[attach-enode] #12447 0
[end-of-instance]
[mk-quant] #12447 internal_ens__u_tokenizer!lst.length._definition 4 #6981 #12449
[attach-var-names] #12447 (|r!| ; |Int|) (|x!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[inst-discovered] theory-solving 0x0 basic# ; #7029
[mk-app] #12450 = #7029 #7029
[instance] 0x0 #12450
[attach-enode] #12450 0
[end-of-instance]
[mk-app] #12450 not #7048
[mk-app] #12451 not #7040
[mk-app] #12452 or #12450 #12451
[mk-app] #12453 not #12452
[inst-discovered] theory-solving 0x0 basic# ; #7046
[mk-app] #12454 = #7046 #12453
[instance] 0x0 #12454
[attach-enode] #12454 0
[end-of-instance]
[mk-app] #12454 = #12452 #7036
[mk-app] #12455 not #12454
[mk-app] #12456 = #7036 #12453
[inst-discovered] theory-solving 0x0 basic# ; #12456
[mk-app] #12457 = #12456 #12455
[instance] 0x0 #12457
[attach-enode] #12457 0
[end-of-instance]
[mk-app] #12453 not #12452
[inst-discovered] theory-solving 0x0 basic# ; #12455
[mk-app] #12453 = #12455 #12455
[instance] 0x0 #12453
[attach-enode] #12453 0
[end-of-instance]
[mk-quant] #12453 internal_u_tokenizer!lex.is_digit.?_definition 1 #7043 #12455
[attach-var-names] #12453 (|c!| ; |Poly|)
[mk-app] #12456 or #7050 #12453
[mk-app] #12457 or #7054 #7056 #7060 #7064 #7068 #7072 #7075 #7078
[mk-app] #12458 not #12457
[inst-discovered] theory-solving 0x0 basic# ; #7095
[mk-app] #12459 = #7095 #12458
[instance] 0x0 #12459
[attach-enode] #12459 0
[end-of-instance]
[mk-app] #12459 or #7096 #12458
[mk-app] #12460 or #7054 #7060 #7064 #7068 #7072 #7075 #7078
[mk-app] #12461 not #12460
[inst-discovered] theory-solving 0x0 basic# ; #7098
[mk-app] #12462 = #7098 #12461
[instance] 0x0 #12462
[attach-enode] #12462 0
[end-of-instance]
[mk-app] #12462 or #7099 #12461
[inst-discovered] theory-solving 0x0 basic# ; #7101
[mk-app] #12463 = #7101 #7101
[instance] 0x0 #12463
[attach-enode] #12463 0
[end-of-instance]
[mk-app] #12463 not #12459
[mk-app] #12464 not #12462
[mk-app] #12465 not #7101
[mk-app] #12466 or #12463 #12464 #12465
[mk-app] #12467 not #12466
[mk-app] #12468 and #12459 #12462 #7101
[inst-discovered] theory-solving 0x0 basic# ; #12468
[mk-app] #12469 = #12468 #12467
[instance] 0x0 #12469
[attach-enode] #12469 0
[end-of-instance]
[mk-app] #12468 = #12466 #7052
[mk-app] #12469 not #12468
[mk-app] #12470 = #7052 #12467
[inst-discovered] theory-solving 0x0 basic# ; #12470
[mk-app] #12471 = #12470 #12469
[instance] 0x0 #12471
[attach-enode] #12471 0
[end-of-instance]
[mk-app] #12467 not #12466
[inst-discovered] theory-solving 0x0 basic# ; #12469
[mk-app] #12467 = #12469 #12469
[instance] 0x0 #12467
[attach-enode] #12467 0
[end-of-instance]
[mk-quant] #12467 internal_ens__u_tokenizer!lex.axiom_classes._definition 1 #7093 #12469
[attach-var-names] #12467 (|c!| ; |Int|)
[mk-app] #12470 or #7004 #7036 #7110 #7113 #7116 #7119 #7122 #7125
[mk-app] #12471 not #12470
[inst-discovered] theory-solving 0x0 basic# ; #7144
[mk-app] #12472 = #7144 #12471
[instance] 0x0 #12472
[attach-enode] #12472 0
[end-of-instance]
[mk-app] #12472 or #7145 #12471
[mk-app] #12473 or #7004 #7110 #7113 #7116 #7119 #7122 #7125
[mk-app] #12474 not #12473
[inst-discovered] theory-solving 0x0 basic# ; #7147
[mk-app] #12475 = #7147 #12474
[instance] 0x0 #12475
[attach-enode] #12475 0
[end-of-instance]
[mk-app] #12475 or #7148 #12474
[inst-discovered] theory-solving 0x0 basic# ; #7150
[mk-app] #12476 = #7150 #7150
[instance] 0x0 #12476
[attach-enode] #12476 0
[end-of-instance]
[mk-app] #12476 not #12472
[mk-app] #12477 not #12475
[mk-app] #12478 not #7150
[mk-app] #12479 or #12476 #12477 #12478
[mk-app] #12480 not #12479
[mk-app] #12481 and #12472 #12475 #7150
[inst-discovered] theory-solving 0x0 basic# ; #12481
[mk-app] #12482 = #12481 #12480
[instance] 0x0 #12482
[attach-enode] #12482 0
[end-of-instance]
[mk-app] #12481 or #249 #12480
[mk-quant] #12482 user_u_tokenizer__lex__axiom_classes_0 1 #7141 #12481
[attach-var-names] #12482 (|c!| ; |Poly|)
[mk-app] #12483 or #7154 #12482
[inst-discovered] theory-solving 0x0 basic# ; #7166
[mk-app] #12484 = #7166 #7166
[instance] 0x0 #12484
[attach-enode] #12484 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7168
[mk-app] #12484 = #7168 #7168
[instance] 0x0 #12484
[attach-enode] #12484 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7182
[mk-app] #12484 = #7182 #7182
[instance] 0x0 #12484
[attach-enode] #12484 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7185
[mk-app] #12484 = #7185 #7185
[instance] 0x0 #12484
[attach-enode] #12484 0
[end-of-instance]
[mk-app] #12484 not #7206
[mk-app] #12485 not #7208
[mk-app] #12486 not #6986
[mk-app] #12487 or #12484 #12485 #12486
[mk-app] #12488 not #12487
[inst-discovered] theory-solving 0x0 basic# ; #6987
[mk-app] #12489 = #6987 #12488
[instance] 0x0 #12489
[attach-enode] #12489 0
[end-of-instance]
[mk-app] #12489 = #12487 #7190
[mk-app] #12490 not #12489
[mk-app] #12491 = #7190 #12488
[inst-discovered] theory-solving 0x0 basic# ; #12491
[mk-app] #12492 = #12491 #12490
[instance] 0x0 #12492
[attach-enode] #12492 0
[end-of-instance]
[mk-app] #12488 not #12487
[inst-discovered] theory-solving 0x0 basic# ; #12490
[mk-app] #12488 = #12490 #12490
[instance] 0x0 #12488
[attach-enode] #12488 0
[end-of-instance]
[mk-quant] #12488 internal_u_tokenizer!lex.impl&__1.wf.?_definition 1 #7202 #12490
[attach-var-names] #12488 (|self!| ; |Poly|)
[mk-app] #12491 or #7211 #12488
[mk-app] #12492 not #7242
[mk-app] #12493 not #7250
[mk-app] #12494 not #7254
[mk-app] #12495 or #12492 #1737 #12493 #12494
[mk-app] #12496 not #12495
[inst-discovered] theory-solving 0x0 basic# ; #7271
[mk-app] #12497 = #7271 #12496
[instance] 0x0 #12497
[attach-enode] #12497 0
[end-of-instance]
[mk-app] #12497 or #7267 #12496
[inst-discovered] theory-solving 0x0 basic# ; #12497
[mk-app] #12498 = #12497 #12497
[instance] 0x0 #12498
[attach-enode] #12498 0
[end-of-instance]
[mk-app] #12498 not #7258
[mk-app] #12499 or #5994 #12498
[mk-app] #12500 not #12499
[inst-discovered] theory-solving 0x0 basic# ; #7273
[mk-app] #12501 = #7273 #12500
[instance] 0x0 #12501
[attach-enode] #12501 0
[end-of-instance]
[mk-app] #12501 or #7268 #12500
[inst-discovered] theory-solving 0x0 basic# ; #12501
[mk-app] #12502 = #12501 #12501
[instance] 0x0 #12502
[attach-enode] #12502 0
[end-of-instance]
[mk-app] #12502 not #7231
[mk-app] #12503 not #7232
[mk-app] #12504 not #7235
[mk-app] #12505 not #12497
[mk-app] #12506 not #12501
[mk-app] #12507 or #12502 #12503 #12504 #12505 #12506
[mk-app] #12508 not #12507
[mk-app] #12509 and #7231 #7232 #7235 #12497 #12501
[inst-discovered] theory-solving 0x0 basic# ; #12509
[mk-app] #12510 = #12509 #12508
[instance] 0x0 #12510
[attach-enode] #12510 0
[end-of-instance]
[mk-app] #12509 = #12507 #7228
[mk-app] #12510 not #12509
[mk-app] #12511 = #7228 #12508
[inst-discovered] theory-solving 0x0 basic# ; #12511
[mk-app] #12512 = #12511 #12510
[instance] 0x0 #12512
[attach-enode] #12512 0
[end-of-instance]
[mk-app] #12508 not #12507
[inst-discovered] theory-solving 0x0 basic# ; #12510
[mk-app] #12508 = #12510 #12510
[instance] 0x0 #12508
[attach-enode] #12508 0
[end-of-instance]
[mk-quant] #12508 internal_ens__u_tokenizer!lex.impl&__1.next._definition 2 #7263 #12510
[attach-var-names] #12508 (|r!| ; |core!option.Option.|) (|self!| ; |Poly|)
[mk-app] #12511 not #7304
[mk-app] #12512 not #7308
[mk-app] #12513 or #1737 #12511 #12512
[mk-app] #12514 not #12513
[inst-discovered] theory-solving 0x0 basic# ; #7323
[mk-app] #12515 = #7323 #12514
[instance] 0x0 #12515
[attach-enode] #12515 0
[end-of-instance]
[mk-app] #12515 or #7319 #12514
[inst-discovered] theory-solving 0x0 basic# ; #12515
[mk-app] #12516 = #12515 #12515
[instance] 0x0 #12516
[attach-enode] #12516 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7325
[mk-app] #12516 = #7325 #7325
[instance] 0x0 #12516
[attach-enode] #12516 0
[end-of-instance]
[mk-app] #12516 not #7291
[mk-app] #12517 not #12515
[mk-app] #12518 not #7325
[mk-app] #12519 or #12516 #12517 #12518
[mk-app] #12520 not #12519
[mk-app] #12521 and #7291 #12515 #7325
[inst-discovered] theory-solving 0x0 basic# ; #12521
[mk-app] #12522 = #12521 #12520
[instance] 0x0 #12522
[attach-enode] #12522 0
[end-of-instance]
[mk-app] #12521 = #12519 #7288
[mk-app] #12522 not #12521
[mk-app] #12523 = #7288 #12520
[inst-discovered] theory-solving 0x0 basic# ; #12523
[mk-app] #12524 = #12523 #12522
[instance] 0x0 #12524
[attach-enode] #12524 0
[end-of-instance]
[mk-app] #12520 not #12519
[inst-discovered] theory-solving 0x0 basic# ; #12522
[mk-app] #12520 = #12522 #12522
[instance] 0x0 #12520
[attach-enode] #12520 0
[end-of-instance]
[mk-quant] #12520 internal_ens__u_tokenizer!lex.impl&__1.peek._definition 2 #7315 #12522
[attach-var-names] #12520 (|r!| ; |core!option.Option.|) (|self!| ; |u_tokenizer!lex.CIter.|)
[mk-app] #12523 not #7278
[mk-app] #12524 not #7330
[mk-app] #12525 not #7332
[mk-app] #12526 or #12523 #12524 #12525
[mk-app] #12527 not #12526
[inst-discovered] theory-solving 0x0 basic# ; #7333
[mk-app] #12528 = #7333 #12527
[instance] 0x0 #12528
[attach-enode] #12528 0
[end-of-instance]
[mk-app] #12528 = #12526 #7317
[mk-app] #12529 not #12528
[mk-app] #12530 = #7317 #12527
[inst-discovered] theory-solving 0x0 basic# ; #12530
[mk-app] #12531 = #12530 #12529
[instance] 0x0 #12531
[attach-enode] #12531 0
[end-of-instance]
[mk-app] #12527 not #12526
[inst-discovered] theory-solving 0x0 basic# ; #12529
[mk-app] #12527 = #12529 #12529
[instance] 0x0 #12527
[attach-enode] #12527 0
[end-of-instance]
[mk-quant] #12527 internal_ens__u_tokenizer!lex.char_indices._definition 4 #7335 #12529
[attach-var-names] #12527 (|r!| ; |u_tokenizer!lex.CIter.|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12530 not #175
[mk-app] #12531 not #7347
[mk-app] #12530 or #181 #12531
[mk-app] #12532 not #12530
[inst-discovered] theory-solving 0x0 basic# ; #7348
[mk-app] #12533 = #7348 #12532
[instance] 0x0 #12533
[attach-enode] #12533 0
[end-of-instance]
[mk-app] #12533 = #12530 #7344
[mk-app] #12534 not #12533
[mk-app] #12535 = #7344 #12532
[inst-discovered] theory-solving 0x0 basic# ; #12535
[mk-app] #12536 = #12535 #12534
[instance] 0x0 #12536
[attach-enode] #12536 0
[end-of-instance]
[mk-app] #12532 not #12530
[inst-discovered] theory-solving 0x0 basic# ; #12534
[mk-app] #12532 = #12534 #12534
[instance] 0x0 #12532
[attach-enode] #12532 0
[end-of-instance]
[mk-quant] #12532 internal_ens__u_tokenizer!lex.ClassShim.alphabetic_._definition 4 #7350 #12534
[attach-var-names] #12532 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12535 not #175
[mk-app] #12536 not #7364
[mk-app] #12535 or #181 #12536
[mk-app] #12537 not #12535
[inst-discovered] theory-solving 0x0 basic# ; #7365
[mk-app] #12538 = #7365 #12537
[instance] 0x0 #12538
[attach-enode] #12538 0
[end-of-instance]
[mk-app] #12538 = #12535 #7362
[mk-app] #12539 not #12538
[mk-app] #12540 = #7362 #12537
[inst-discovered] theory-solving 0x0 basic# ; #12540
[mk-app] #12541 = #12540 #12539
[instance] 0x0 #12541
[attach-enode] #12541 0
[end-of-instance]
[mk-app] #12537 not #12535
[inst-discovered] theory-solving 0x0 basic# ; #12539
[mk-app] #12537 = #12539 #12539
[instance] 0x0 #12537
[attach-enode] #12537 0
[end-of-instance]
[mk-quant] #12537 internal_ens__u_tokenizer!lex.ClassShim.alphanumeric_._definition 4 #7367 #12539
[attach-var-names] #12537 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12540 not #175
[mk-app] #12541 not #7371
[mk-app] #12540 or #181 #12541
[mk-app] #12542 not #12540
[inst-discovered] theory-solving 0x0 basic# ; #7372
[mk-app] #12543 = #7372 #12542
[instance] 0x0 #12543
[attach-enode] #12543 0
[end-of-instance]
[mk-app] #12543 = #12540 #7369
[mk-app] #12544 not #12543
[mk-app] #12545 = #7369 #12542
[inst-discovered] theory-solving 0x0 basic# ; #12545
[mk-app] #12546 = #12545 #12544
[instance] 0x0 #12546
[attach-enode] #12546 0
[end-of-instance]
[mk-app] #12542 not #12540
[inst-discovered] theory-solving 0x0 basic# ; #12544
[mk-app] #12542 = #12544 #12544
[instance] 0x0 #12542
[attach-enode] #12542 0
[end-of-instance]
[mk-quant] #12542 internal_ens__u_tokenizer!lex.ClassShim.numeric_._definition 4 #7374 #12544
[attach-var-names] #12542 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12545 not #175
[mk-app] #12546 not #7378
[mk-app] #12545 or #181 #12546
[mk-app] #12547 not #12545
[inst-discovered] theory-solving 0x0 basic# ; #7379
[mk-app] #12548 = #7379 #12547
[instance] 0x0 #12548
[attach-enode] #12548 0
[end-of-instance]
[mk-app] #12548 = #12545 #7376
[mk-app] #12549 not #12548
[mk-app] #12550 = #7376 #12547
[inst-discovered] theory-solving 0x0 basic# ; #12550
[mk-app] #12551 = #12550 #12549
[instance] 0x0 #12551
[attach-enode] #12551 0
[end-of-instance]
[mk-app] #12547 not #12545
[inst-discovered] theory-solving 0x0 basic# ; #12549
[mk-app] #12547 = #12549 #12549
[instance] 0x0 #12547
[attach-enode] #12547 0
[end-of-instance]
[mk-quant] #12547 internal_ens__u_tokenizer!lex.ClassShim.ascii_digit_._definition 4 #7381 #12549
[attach-var-names] #12547 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12550 not #175
[mk-app] #12551 not #7385
[mk-app] #12550 or #181 #12551
[mk-app] #12552 not #12550
[inst-discovered] theory-solving 0x0 basic# ; #7386
[mk-app] #12553 = #7386 #12552
[instance] 0x0 #12553
[attach-enode] #12553 0
[end-of-instance]
[mk-app] #12553 = #12550 #7383
[mk-app] #12554 not #12553
[mk-app] #12555 = #7383 #12552
[inst-discovered] theory-solving 0x0 basic# ; #12555
[mk-app] #12556 = #12555 #12554
[instance] 0x0 #12556
[attach-enode] #12556 0
[end-of-instance]
[mk-app] #12552 not #12550
[inst-discovered] theory-solving 0x0 basic# ; #12554
[mk-app] #12552 = #12554 #12554
[instance] 0x0 #12552
[attach-enode] #12552 0
[end-of-instance]
[mk-quant] #12552 internal_ens__u_tokenizer!lex.ClassShim.whitespace_._definition 4 #7388 #12554
[attach-var-names] #12552 (|r!| ; |Poly|) (|self!| ; |Poly|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12555 or #11800 #7450
[mk-app] #12556 not #12555
[inst-discovered] theory-solving 0x0 basic# ; #7454
[mk-app] #12557 = #7454 #12556
[instance] 0x0 #12557
[attach-enode] #12557 0
[end-of-instance]
[mk-app] #12557 not #12556
[inst-discovered] theory-solving 0x0 basic# ; #12557
[mk-app] #12558 = #12557 #12555
[instance] 0x0 #12558
[attach-enode] #12558 0
[end-of-instance]
[mk-app] #12556 or #192 #11800 #7450 #7434
[mk-app] #12557 or #192 #12555 #7434
[inst-discovered] theory-solving 0x0 basic# ; #12557
[mk-app] #12558 = #12557 #12556
[instance] 0x0 #12558
[attach-enode] #12558 0
[end-of-instance]
[mk-quant] #12555 user_u_tokenizer__lex__parse_usize_0 1 #7437 #12556
[attach-var-names] #12555 (|i$| ; |Poly|)
[mk-app] #12557 or #7448 #12555
[mk-app] #12558 not #12557
[mk-app] #12559 or #11363 #12558
[mk-app] #12560 not #12559
[mk-app] #12561 and #7447 #12557
[inst-discovered] theory-solving 0x0 basic# ; #12561
[mk-app] #12562 = #12561 #12560
[instance] 0x0 #12562
[attach-enode] #12562 0
[end-of-instance]
[mk-app] #12561 or #11362 #12560
[mk-app] #12562 not #11368
[mk-app] #12563 or #12562 #11388
[mk-app] #12564 not #12563
[inst-discovered] theory-solving 0x0 basic# ; #11389
[mk-app] #12565 = #11389 #12564
[instance] 0x0 #12565
[attach-enode] #12565 0
[end-of-instance]
[mk-app] #12565 not #12564
[inst-discovered] theory-solving 0x0 basic# ; #12565
[mk-app] #12566 = #12565 #12563
[instance] 0x0 #12566
[attach-enode] #12566 0
[end-of-instance]
[mk-app] #12564 or #11366 #12562 #11388 #11376
[mk-app] #12565 or #11366 #12563 #11376
[inst-discovered] theory-solving 0x0 basic# ; #12565
[mk-app] #12566 = #12565 #12564
[instance] 0x0 #12566
[attach-enode] #12566 0
[end-of-instance]
[mk-app] #12563 not #12564
[mk-app] #12565 or #7448 #11366 #12562 #11388 #11376
[mk-app] #12566 not #12565
[mk-app] #12567 and #7430 #12563
[inst-discovered] theory-solving 0x0 basic# ; #12567
[mk-app] #12568 = #12567 #12566
[instance] 0x0 #12568
[attach-enode] #12568 0
[end-of-instance]
[mk-app] #12564 or #7425 #11363 #12566
[inst-discovered] theory-solving 0x0 basic# ; #12564
[mk-app] #12563 = #12564 #12564
[instance] 0x0 #12563
[attach-enode] #12563 0
[end-of-instance]
[mk-app] #12563 not #12561
[mk-app] #12567 not #12564
[mk-app] #12568 or #12563 #12567
[mk-app] #12569 not #12568
[mk-app] #12570 and #12561 #12564
[inst-discovered] theory-solving 0x0 basic# ; #12570
[mk-app] #12571 = #12570 #12569
[instance] 0x0 #12571
[attach-enode] #12571 0
[end-of-instance]
[mk-quant] #12570 internal_req__u_tokenizer!lex.parse_usize._definition 3 #7442 #12569
[attach-var-names] #12570 (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12571 not #7463
[mk-app] #12572 not #7215
[mk-app] #12573 or #12571 #12572
[mk-app] #12574 not #12573
[inst-discovered] theory-solving 0x0 basic# ; #7216
[mk-app] #12575 = #7216 #12574
[instance] 0x0 #12575
[attach-enode] #12575 0
[end-of-instance]
[mk-app] #12575 = #12573 #7461
[mk-app] #12576 not #12575
[mk-app] #12577 = #7461 #12574
[inst-discovered] theory-solving 0x0 basic# ; #12577
[mk-app] #12578 = #12577 #12576
[instance] 0x0 #12578
[attach-enode] #12578 0
[end-of-instance]
[mk-app] #12574 not #12573
[inst-discovered] theory-solving 0x0 basic# ; #12576
[mk-app] #12574 = #12576 #12576
[instance] 0x0 #12574
[attach-enode] #12574 0
[end-of-instance]
[mk-quant] #12574 internal_ens__u_tokenizer!lex.parse_usize._definition 4 #7472 #12576
[attach-var-names] #12574 (|r!| ; |core!result.Result.|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12577 not #7487
[mk-app] #12578 or #7493 #12577
[mk-app] #12579 not #12578
[inst-discovered] theory-solving 0x0 basic# ; #7495
[mk-app] #12580 = #7495 #12579
[instance] 0x0 #12580
[attach-enode] #12580 0
[end-of-instance]
[mk-app] #12580 = #12578 #128
[mk-app] #12581 not #12580
[mk-app] #12582 = #128 #12579
[inst-discovered] theory-solving 0x0 basic# ; #12582
[mk-app] #12583 = #12582 #12581
[instance] 0x0 #12583
[attach-enode] #12583 0
[end-of-instance]
[mk-app] #12579 not #12578
[inst-discovered] theory-solving 0x0 basic# ; #12581
[mk-app] #12579 = #12581 #12581
[instance] 0x0 #12579
[attach-enode] #12579 0
[end-of-instance]
[mk-app] #12579 = #12580 #7476
[mk-app] #12582 not #12579
[mk-app] #12583 = #7476 #12581
[inst-discovered] theory-solving 0x0 basic# ; #12583
[mk-app] #12584 = #12583 #12582
[instance] 0x0 #12584
[attach-enode] #12584 0
[end-of-instance]
[mk-app] #12583 not #12578
[inst-discovered] theory-solving 0x0 basic# ; #12582
[mk-app] #12583 = #12582 #12582
[instance] 0x0 #12583
[attach-enode] #12583 0
[end-of-instance]
[mk-quant] #12583 internal_ens__u_tokenizer!lex.starts_with_char._definition 5 #7491 #12582
[attach-var-names] #12583 (|r!| ; |Bool|) (|c!| ; |Int|) (|s!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12581 not #7555
[mk-app] #12584 not #7557
[mk-app] #12585 not #7565
[mk-app] #12586 or #12581 #12584 #12585
[mk-app] #12587 not #12586
[inst-discovered] theory-solving 0x0 basic# ; #7566
[mk-app] #12588 = #7566 #12587
[instance] 0x0 #12588
[attach-enode] #12588 0
[end-of-instance]
[mk-app] #12588 = #12586 #7538
[mk-app] #12589 not #12588
[mk-app] #12590 = #7538 #12587
[inst-discovered] theory-solving 0x0 basic# ; #12590
[mk-app] #12591 = #12590 #12589
[instance] 0x0 #12591
[attach-enode] #12591 0
[end-of-instance]
[mk-app] #12587 not #12586
[inst-discovered] theory-solving 0x0 basic# ; #12589
[mk-app] #12587 = #12589 #12589
[instance] 0x0 #12587
[attach-enode] #12587 0
[end-of-instance]
[mk-quant] #12587 internal_req__u_tokenizer!lex.impl&__3.next_boundary._definition 5 #7552 #12589
[attach-var-names] #12587 (|start!| ; |Int|) (|s!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12590 not #7570
[mk-app] #12591 not #7588
[mk-app] #12592 not #7597
[mk-app] #12593 not #7583
[mk-app] #12594 or #12590 #1821 #12591 #7591 #12592 #12593
[mk-app] #12595 not #12594
[inst-discovered] theory-solving 0x0 basic# ; #7598
[mk-app] #12596 = #7598 #12595
[instance] 0x0 #12596
[attach-enode] #12596 0
[end-of-instance]
[mk-app] #12596 = #12594 #7558
[mk-app] #12597 not #12596
[mk-app] #12598 = #7558 #12595
[inst-discovered] theory-solving 0x0 basic# ; #12598
[mk-app] #12599 = #12598 #12597
[instance] 0x0 #12599
[attach-enode] #12599 0
[end-of-instance]
[mk-app] #12595 not #12594
[inst-discovered] theory-solving 0x0 basic# ; #12597
[mk-app] #12595 = #12597 #12597
[instance] 0x0 #12595
[attach-enode] #12595 0
[end-of-instance]
[mk-quant] #12595 internal_ens__u_tokenizer!lex.impl&__3.next_boundary._definition 6 #7586 #12597
[attach-var-names] #12595 (|r!| ; |core!result.Result.|) (|start!| ; |Int|) (|s!| ; |Poly|) (|self!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12598 not #7626
[mk-app] #12599 or #12598 #11891 #6117
[mk-app] #12600 not #12599
[inst-discovered] theory-solving 0x0 basic# ; #7627
[mk-app] #12601 = #7627 #12600
[instance] 0x0 #12601
[attach-enode] #12601 0
[end-of-instance]
[mk-app] #12601 not #12600
[inst-discovered] theory-solving 0x0 basic# ; #12601
[mk-app] #12602 = #12601 #12599
[instance] 0x0 #12602
[attach-enode] #12602 0
[end-of-instance]
[mk-app] #12601 or #12598 #11891 #6117 #7629
[mk-app] #12602 or #12599 #7629
[inst-discovered] theory-solving 0x0 basic# ; #12602
[mk-app] #12603 = #12602 #12601
[instance] 0x0 #12603
[attach-enode] #12603 0
[end-of-instance]
[mk-quant] #12602 internal_u_tokenizer!lex.Pushed.pushed.?_pre_post_definition 7 #7631 #12601
[attach-var-names] #12602 (|new!| ; |Poly|) (|x!| ; |Poly|) (|old!| ; |Poly|) (|T&| ; |Type|) (|T&.| ; |Dcr|) (|Self%&| ; |Type|) (|Self%&.| ; |Dcr|)
[mk-app] #12599 or #7667 #4067
[mk-app] #12600 not #12599
[inst-discovered] theory-solving 0x0 basic# ; #7669
[mk-app] #12603 = #7669 #12600
[instance] 0x0 #12603
[attach-enode] #12603 0
[end-of-instance]
[mk-app] #12603 not #12600
[inst-discovered] theory-solving 0x0 basic# ; #12603
[mk-app] #12604 = #12603 #12599
[instance] 0x0 #12604
[attach-enode] #12604 0
[end-of-instance]
[mk-app] #12600 or #192 #7667 #4067 #7656
[mk-app] #12603 or #192 #12599 #7656
[inst-discovered] theory-solving 0x0 basic# ; #12603
[mk-app] #12604 = #12603 #12600
[instance] 0x0 #12604
[attach-enode] #12604 0
[end-of-instance]
[mk-quant] #12599 user_u_tokenizer__lst__visible_end_0 1 #7659 #12600
[attach-var-names] #12599 (|i$| ; |Poly|)
[mk-app] #12603 not #12599
[mk-app] #12604 or #4068 #3963 #7649 #12603
[mk-app] #12605 not #12604
[mk-app] #12606 and #4067 #7667 #7650 #12599
[inst-discovered] theory-solving 0x0 basic# ; #12606
[mk-app] #12607 = #12606 #12605
[instance] 0x0 #12607
[attach-enode] #12607 0
[end-of-instance]
[mk-app] #12606 or #11382 #12605
[mk-app] #12607 not #11422
[mk-app] #12608 or #12607 #11425
[mk-app] #12609 not #12608
[inst-discovered] theory-solving 0x0 basic# ; #11426
[mk-app] #12610 = #11426 #12609
[instance] 0x0 #12610
[attach-enode] #12610 0
[end-of-instance]
[mk-app] #12610 not #12609
[inst-discovered] theory-solving 0x0 basic# ; #12610
[mk-app] #12611 = #12610 #12608
[instance] 0x0 #12611
[attach-enode] #12611 0
[end-of-instance]
[mk-app] #12609 or #11394 #12607 #11425 #11410
[mk-app] #12610 or #11394 #12608 #11410
[inst-discovered] theory-solving 0x0 basic# ; #12610
[mk-app] #12611 = #12610 #12609
[instance] 0x0 #12611
[attach-enode] #12611 0
[end-of-instance]
[mk-app] #12608 not #12609
[mk-app] #12610 or #7644 #4068 #3963 #7649 #12608
[inst-discovered] theory-solving 0x0 basic# ; #12610
[mk-app] #12611 = #12610 #12610
[instance] 0x0 #12611
[attach-enode] #12611 0
[end-of-instance]
[mk-app] #12611 not #12606
[mk-app] #12612 not #12610
[mk-app] #12613 or #12611 #12612
[mk-app] #12614 not #12613
[mk-app] #12615 and #12606 #12610
[inst-discovered] theory-solving 0x0 basic# ; #12615
[mk-app] #12616 = #12615 #12614
[instance] 0x0 #12616
[attach-enode] #12616 0
[end-of-instance]
[mk-quant] #12615 internal_u_tokenizer!lst.visible_end.?_definition 4 #7663 #12614
[attach-var-names] #12615 (|v!| ; |Poly|) (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12616 or #7666 #12615
[mk-app] #12617 not #11417
[mk-app] #12618 not #11418
[mk-app] #12619 or #12617 #12618
[mk-app] #12620 not #12619
[inst-discovered] theory-solving 0x0 basic# ; #11419
[mk-app] #12621 = #11419 #12620
[instance] 0x0 #12621
[attach-enode] #12621 0
[end-of-instance]
[mk-app] #12621 or #264 #12620
[inst-discovered] theory-solving 0x0 basic# ; #12621
[mk-app] #12622 = #12621 #12621
[instance] 0x0 #12622
[attach-enode] #12622 0
[end-of-instance]
[mk-app] #12622 not #12621
[mk-app] #12623 or #11436 #7667 #11437 #12622
[mk-app] #12624 not #12623
[mk-app] #12625 and #736 #3963 #6791 #12621
[inst-discovered] theory-solving 0x0 basic# ; #12625
[mk-app] #12626 = #12625 #12624
[instance] 0x0 #12626
[attach-enode] #12626 0
[end-of-instance]
[mk-app] #12625 or #11415 #12624
[mk-app] #12626 or #192 #11382
[mk-app] #12627 not #12626
[inst-discovered] theory-solving 0x0 basic# ; #7680
[mk-app] #12628 = #7680 #12627
[instance] 0x0 #12628
[attach-enode] #12628 0
[end-of-instance]
[mk-app] #12628 not #12627
[inst-discovered] theory-solving 0x0 basic# ; #12628
[mk-app] #12629 = #12628 #12626
[instance] 0x0 #12629
[attach-enode] #12629 0
[end-of-instance]
[mk-quant] #12628 user_u_tokenizer__lst__tokens_span_0 1 #7663 #12626
[attach-var-names] #12628 (|v$| ; |Poly|)
[mk-app] #12627 not #12628
[mk-app] #12629 or #264 #12627
[mk-app] #12630 not #12629
[mk-app] #12631 and #11438 #12628
[inst-discovered] theory-solving 0x0 basic# ; #12631
[mk-app] #12632 = #12631 #12630
[instance] 0x0 #12632
[attach-enode] #12632 0
[end-of-instance]
[mk-app] #12631 or #7678 #11436 #7667 #11437 #12630
[inst-discovered] theory-solving 0x0 basic# ; #12631
[mk-app] #12632 = #12631 #12631
[instance] 0x0 #12632
[attach-enode] #12632 0
[end-of-instance]
[mk-app] #12632 not #12625
[mk-app] #12633 not #12631
[mk-app] #12634 or #12632 #12633
[mk-app] #12635 not #12634
[mk-app] #12636 and #12625 #12631
[inst-discovered] theory-solving 0x0 basic# ; #12636
[mk-app] #12637 = #12636 #12635
[instance] 0x0 #12637
[attach-enode] #12637 0
[end-of-instance]
[mk-quant] #12636 internal_u_tokenizer!lst.tokens_span.?_definition 3 #7685 #12635
[attach-var-names] #12636 (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12637 or #7688 #12636
[mk-app] #12638 not #11446
[mk-app] #12639 not #11447
[mk-app] #12640 not #11452
[mk-app] #12641 not #11453
[mk-app] #12642 not #11454
[mk-app] #12643 or #12638 #12639 #12640 #12641 #12642
[mk-app] #12644 not #12643
[inst-discovered] theory-solving 0x0 basic# ; #11455
[mk-app] #12645 = #11455 #12644
[instance] 0x0 #12645
[attach-enode] #12645 0
[end-of-instance]
[mk-app] #12645 or #11442 #12644
[mk-app] #12646 not #7700
[mk-app] #12647 not #7703
[mk-app] #12648 not #7705
[mk-app] #12649 or #11872 #192 #12646 #12647 #12648
[mk-app] #12650 not #12649
[inst-discovered] theory-solving 0x0 basic# ; #7714
[mk-app] #12651 = #7714 #12650
[instance] 0x0 #12651
[attach-enode] #12651 0
[end-of-instance]
[mk-app] #12651 not #12650
[inst-discovered] theory-solving 0x0 basic# ; #12651
[mk-app] #12652 = #12651 #12649
[instance] 0x0 #12652
[attach-enode] #12652 0
[end-of-instance]
[mk-quant] #12650 user_u_tokenizer__lst__range_fine_0 2 #7708 #12649
[attach-var-names] #12650 (|b$| ; |Poly|) (|a$| ; |Poly|)
[mk-app] #12651 or #7695 #12650
[mk-app] #12652 not #12645
[mk-app] #12653 not #12651
[mk-app] #12654 or #12652 #12653
[mk-app] #12655 not #12654
[mk-app] #12656 and #12645 #12651
[inst-discovered] theory-solving 0x0 basic# ; #12656
[mk-app] #12657 = #12656 #12655
[instance] 0x0 #12657
[attach-enode] #12657 0
[end-of-instance]
[mk-quant] #12656 internal_u_tokenizer!lst.range_fine.?_definition 2 #7711 #12655
[attach-var-names] #12656 (|r!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12657 or #7718 #12656
[mk-app] #12658 not #7739
[mk-app] #12659 or #4521 #12658
[mk-app] #12660 not #12659
[inst-discovered] theory-solving 0x0 basic# ; #7740
[mk-app] #12661 = #7740 #12660
[instance] 0x0 #12661
[attach-enode] #12661 0
[end-of-instance]
[mk-app] #12661 not #12660
[inst-discovered] theory-solving 0x0 basic# ; #12661
[mk-app] #12662 = #12661 #12659
[instance] 0x0 #12662
[attach-enode] #12662 0
[end-of-instance]
[mk-app] #12661 or #4521 #12658 #7743
[mk-app] #12662 or #12659 #7743
[inst-discovered] theory-solving 0x0 basic# ; #12662
[mk-app] #12663 = #12662 #12661
[instance] 0x0 #12663
[attach-enode] #12663 0
[end-of-instance]
[mk-quant] #12662 internal_vstd!std_specs.iter.impl&__2.obeys_prophetic_iter_laws.?_definition 3 #7745 #12661
[attach-var-names] #12662 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12659 or #7751 #12662
[mk-app] #12660 or #4521 #12658
[mk-app] #12663 not #12660
[inst-discovered] theory-solving 0x0 basic# ; #7740
[mk-app] #12664 = #7740 #12663
[instance] 0x0 #12664
[attach-enode] #12664 0
[end-of-instance]
[mk-app] #12664 not #12663
[inst-discovered] theory-solving 0x0 basic# ; #12664
[mk-app] #12665 = #12664 #12660
[instance] 0x0 #12665
[attach-enode] #12665 0
[end-of-instance]
[mk-app] #12664 or #4521 #12658 #7757
[mk-app] #12665 or #12660 #7757
[inst-discovered] theory-solving 0x0 basic# ; #12665
[mk-app] #12666 = #12665 #12664
[instance] 0x0 #12666
[attach-enode] #12666 0
[end-of-instance]
[mk-quant] #12665 internal_vstd!std_specs.iter.impl&__2.remaining.?_definition 3 #7759 #12664
[attach-var-names] #12665 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12660 or #7764 #12665
[mk-app] #12663 or #4521 #12658
[mk-app] #12666 not #12663
[inst-discovered] theory-solving 0x0 basic# ; #7740
[mk-app] #12667 = #7740 #12666
[instance] 0x0 #12667
[attach-enode] #12667 0
[end-of-instance]
[mk-app] #12667 not #12666
[inst-discovered] theory-solving 0x0 basic# ; #12667
[mk-app] #12668 = #12667 #12663
[instance] 0x0 #12668
[attach-enode] #12668 0
[end-of-instance]
[mk-app] #12667 or #4521 #12658 #7770
[mk-app] #12668 or #12663 #7770
[inst-discovered] theory-solving 0x0 basic# ; #12668
[mk-app] #12669 = #12668 #12667
[instance] 0x0 #12669
[attach-enode] #12669 0
[end-of-instance]
[mk-quant] #12668 internal_vstd!std_specs.iter.impl&__2.will_return_none.?_definition 3 #7772 #12667
[attach-var-names] #12668 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12663 or #7777 #12668
[mk-app] #12666 or #4521 #12658
[mk-app] #12669 not #12666
[inst-discovered] theory-solving 0x0 basic# ; #7740
[mk-app] #12670 = #7740 #12669
[instance] 0x0 #12670
[attach-enode] #12670 0
[end-of-instance]
[mk-app] #12670 not #12669
[inst-discovered] theory-solving 0x0 basic# ; #12670
[mk-app] #12671 = #12670 #12666
[instance] 0x0 #12671
[attach-enode] #12671 0
[end-of-instance]
[mk-app] #12670 or #4521 #12658 #7783
[mk-app] #12671 or #12666 #7783
[inst-discovered] theory-solving 0x0 basic# ; #12671
[mk-app] #12672 = #12671 #12670
[instance] 0x0 #12672
[attach-enode] #12672 0
[end-of-instance]
[mk-quant] #12671 internal_vstd!std_specs.iter.impl&__2.decrease.?_definition 3 #7785 #12670
[attach-var-names] #12671 (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12666 or #7790 #12671
[mk-app] #12669 or #4044 #11755
[mk-app] #12672 not #12669
[inst-discovered] theory-solving 0x0 basic# ; #7794
[mk-app] #12673 = #7794 #12672
[instance] 0x0 #12673
[attach-enode] #12673 0
[end-of-instance]
[mk-app] #12673 not #12672
[inst-discovered] theory-solving 0x0 basic# ; #12673
[mk-app] #12674 = #12673 #12669
[instance] 0x0 #12674
[attach-enode] #12674 0
[end-of-instance]
[mk-app] #12673 or #4044 #11755 #7797
[mk-app] #12674 or #12669 #7797
[inst-discovered] theory-solving 0x0 basic# ; #12674
[mk-app] #12675 = #12674 #12673
[instance] 0x0 #12675
[attach-enode] #12675 0
[end-of-instance]
[mk-quant] #12674 internal_vstd!std_specs.iter.impl&__2.peek.?_definition 4 #7799 #12673
[attach-var-names] #12674 (|index!| ; |Poly|) (|self!| ; |Poly|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12669 or #7805 #12674
[mk-app] #12672 not #7819
[mk-app] #12675 or #4521 #12672
[mk-app] #12676 not #12675
[inst-discovered] theory-solving 0x0 basic# ; #7820
[mk-app] #12677 = #7820 #12676
[instance] 0x0 #12677
[attach-enode] #12677 0
[end-of-instance]
[mk-app] #12677 not #12676
[inst-discovered] theory-solving 0x0 basic# ; #12677
[mk-app] #12678 = #12677 #12675
[instance] 0x0 #12678
[attach-enode] #12678 0
[end-of-instance]
[mk-app] #12677 or #4521 #12672 #7822
[mk-app] #12678 or #12675 #7822
[inst-discovered] theory-solving 0x0 basic# ; #12678
[mk-app] #12679 = #12678 #12677
[instance] 0x0 #12679
[attach-enode] #12679 0
[end-of-instance]
[mk-quant] #12678 internal_vstd!std_specs.range.impl&__3.obeys_prophetic_iter_laws.?_definition 3 #7824 #12677
[attach-var-names] #12678 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12675 or #7830 #12678
[mk-app] #12676 or #4521 #12672
[mk-app] #12679 not #12676
[inst-discovered] theory-solving 0x0 basic# ; #7820
[mk-app] #12680 = #7820 #12679
[instance] 0x0 #12680
[attach-enode] #12680 0
[end-of-instance]
[mk-app] #12680 not #12679
[inst-discovered] theory-solving 0x0 basic# ; #12680
[mk-app] #12681 = #12680 #12676
[instance] 0x0 #12681
[attach-enode] #12681 0
[end-of-instance]
[mk-app] #12680 or #4521 #12672 #7864
[mk-app] #12681 or #12676 #7864
[inst-discovered] theory-solving 0x0 basic# ; #12681
[mk-app] #12682 = #12681 #12680
[instance] 0x0 #12682
[attach-enode] #12682 0
[end-of-instance]
[mk-quant] #12681 internal_vstd!std_specs.range.impl&__3.remaining.?_definition 3 #7855 #12680
[attach-var-names] #12681 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12676 or #7859 #12681
[mk-app] #12679 or #4521 #12672
[mk-app] #12682 not #12679
[inst-discovered] theory-solving 0x0 basic# ; #7820
[mk-app] #12683 = #7820 #12682
[instance] 0x0 #12683
[attach-enode] #12683 0
[end-of-instance]
[mk-app] #12683 not #12682
[inst-discovered] theory-solving 0x0 basic# ; #12683
[mk-app] #12684 = #12683 #12679
[instance] 0x0 #12684
[attach-enode] #12684 0
[end-of-instance]
[mk-app] #12683 or #4521 #12672 #7875
[mk-app] #12684 or #12679 #7875
[inst-discovered] theory-solving 0x0 basic# ; #12684
[mk-app] #12685 = #12684 #12683
[instance] 0x0 #12685
[attach-enode] #12685 0
[end-of-instance]
[mk-quant] #12684 internal_vstd!std_specs.range.impl&__3.decrease.?_definition 3 #7877 #12683
[attach-var-names] #12684 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12679 or #7882 #12684
[mk-app] #12682 not #7886
[mk-app] #12685 or #4044 #12682
[mk-app] #12686 not #12685
[inst-discovered] theory-solving 0x0 basic# ; #7887
[mk-app] #12687 = #7887 #12686
[instance] 0x0 #12687
[attach-enode] #12687 0
[end-of-instance]
[mk-app] #12687 not #12686
[inst-discovered] theory-solving 0x0 basic# ; #12687
[mk-app] #12688 = #12687 #12685
[instance] 0x0 #12688
[attach-enode] #12688 0
[end-of-instance]
[mk-app] #12687 not #7909
[mk-app] #12688 or #11800 #12687
[mk-app] #12689 not #12688
[inst-discovered] theory-solving 0x0 basic# ; #7910
[mk-app] #12690 = #7910 #12689
[instance] 0x0 #12690
[attach-enode] #12690 0
[end-of-instance]
[mk-app] #12690 if #12688 #1714 #7899
[mk-app] #12691 if #12689 #7899 #1714
[inst-discovered] theory-solving 0x0 datatype# ; #12691
[mk-app] #12692 = #12691 #12690
[instance] 0x0 #12692
[attach-enode] #12692 0
[end-of-instance]
[mk-app] #12689 Poly%core!option.Option. #12690
[mk-app] #12691 = #7888 #12689
[mk-app] #12692 or #4044 #12682 #12691
[mk-app] #12693 or #12685 #12691
[inst-discovered] theory-solving 0x0 basic# ; #12693
[mk-app] #12694 = #12693 #12692
[instance] 0x0 #12694
[attach-enode] #12694 0
[end-of-instance]
[mk-quant] #12693 internal_vstd!std_specs.range.impl&__3.peek.?_definition 4 #7904 #12692
[attach-var-names] #12693 (|index!| ; |Poly|) (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12685 or #7917 #12693
[mk-app] #12686 or #4521 #7974
[mk-app] #12694 not #12686
[inst-discovered] theory-solving 0x0 basic# ; #7994
[mk-app] #12695 = #7994 #12694
[instance] 0x0 #12695
[attach-enode] #12695 0
[end-of-instance]
[mk-app] #12695 not #12694
[inst-discovered] theory-solving 0x0 basic# ; #12695
[mk-app] #12696 = #12695 #12686
[instance] 0x0 #12696
[attach-enode] #12696 0
[end-of-instance]
[mk-app] #12695 or #4521 #7974 #7997
[mk-app] #12696 or #12686 #7997
[inst-discovered] theory-solving 0x0 basic# ; #12696
[mk-app] #12697 = #12696 #12695
[instance] 0x0 #12697
[attach-enode] #12697 0
[end-of-instance]
[mk-quant] #12696 internal_vstd!view.impl&__4.view.?_definition 3 #7999 #12695
[attach-var-names] #12696 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12686 or #8005 #12696
[mk-app] #12694 or #4521 #7974
[mk-app] #12697 not #12694
[inst-discovered] theory-solving 0x0 basic# ; #7994
[mk-app] #12698 = #7994 #12697
[instance] 0x0 #12698
[attach-enode] #12698 0
[end-of-instance]
[mk-app] #12698 not #12697
[inst-discovered] theory-solving 0x0 basic# ; #12698
[mk-app] #12699 = #12698 #12694
[instance] 0x0 #12699
[attach-enode] #12699 0
[end-of-instance]
[mk-app] #12698 or #4521 #7974 #8011
[mk-app] #12699 or #12694 #8011
[inst-discovered] theory-solving 0x0 basic# ; #12699
[mk-app] #12700 = #12699 #12698
[instance] 0x0 #12700
[attach-enode] #12700 0
[end-of-instance]
[mk-quant] #12699 internal_vstd!view.impl&__6.view.?_definition 3 #8013 #12698
[attach-var-names] #12699 (|self!| ; |Poly|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12694 or #8018 #12699
[mk-app] #12697 or #4521 #7974
[mk-app] #12700 not #12697
[inst-discovered] theory-solving 0x0 basic# ; #7994
[mk-app] #12701 = #7994 #12700
[instance] 0x0 #12701
[attach-enode] #12701 0
[end-of-instance]
[mk-app] #12701 not #12700
[inst-discovered] theory-solving 0x0 basic# ; #12701
[mk-app] #12702 = #12701 #12697
[instance] 0x0 #12702
[attach-enode] #12702 0
[end-of-instance]
[mk-app] #12701 or #4521 #7974 #8102
[mk-app] #12702 or #12697 #8102
[inst-discovered] theory-solving 0x0 basic# ; #12702
[mk-app] #12703 = #12702 #12701
[instance] 0x0 #12703
[attach-enode] #12703 0
[end-of-instance]
[mk-quant] #12702 internal_vstd!view.impl&__46.view.?_definition 3 #8104 #12701
[attach-var-names] #12702 (|self!| ; |Poly|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #12697 or #8109 #12702
[mk-app] #12700 not #8113
[mk-app] #12703 or #4424 #4521 #12700 #7974
[mk-app] #12704 not #12703
[inst-discovered] theory-solving 0x0 basic# ; #8114
[mk-app] #12705 = #8114 #12704
[instance] 0x0 #12705
[attach-enode] #12705 0
[end-of-instance]
[mk-app] #12705 not #12704
[inst-discovered] theory-solving 0x0 basic# ; #12705
[mk-app] #12706 = #12705 #12703
[instance] 0x0 #12706
[attach-enode] #12706 0
[end-of-instance]
[mk-app] #12705 or #4424 #4521 #12700 #7974 #8120
[mk-app] #12706 or #12703 #8120
[inst-discovered] theory-solving 0x0 basic# ; #12706
[mk-app] #12707 = #12706 #12705
[instance] 0x0 #12707
[attach-enode] #12707 0
[end-of-instance]
[mk-quant] #12706 internal_vstd!view.impl&__48.view.?_definition 5 #8122 #12705
[attach-var-names] #12706 (|self!| ; |Poly|) (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #12703 or #8128 #12706
[mk-app] #12704 or #7126 #7122
[mk-app] #12707 not #12704
[inst-discovered] theory-solving 0x0 basic# ; #8304
[mk-app] #12708 = #8304 #12707
[instance] 0x0 #12708
[attach-enode] #12708 0
[end-of-instance]
[mk-app] #12708 if #8316 #7123 #12707
[mk-app] #12709 if #8315 #7111 #12708
[mk-app] #12710 if #8314 #7036 #12709
[mk-app] #12711 if #8313 #8300 #12710
[mk-app] #12712 = #8297 #12711
[mk-quant] #12713 internal_u_tokenizer!lex.within.?_definition 2 #8310 #12712
[attach-var-names] #12713 (|c!| ; |Poly|) (|k!| ; |Poly|)
[mk-app] #12714 or #8323 #12713
[mk-app] #12715 not #7481
[mk-app] #12716 not #8332
[mk-app] #12717 or #12715 #11942 #12716
[mk-app] #12718 not #12717
[inst-discovered] theory-solving 0x0 basic# ; #7479
[mk-app] #12719 = #7479 #12718
[instance] 0x0 #12719
[attach-enode] #12719 0
[end-of-instance]
[mk-app] #12719 not #12718
[inst-discovered] theory-solving 0x0 basic# ; #12719
[mk-app] #12720 = #12719 #12717
[instance] 0x0 #12720
[attach-enode] #12720 0
[end-of-instance]
[mk-app] #12718 not #8339
[mk-app] #12719 or #11945 #8351 #12718
[mk-app] #12720 not #12719
[inst-discovered] theory-solving 0x0 basic# ; #8355
[mk-app] #12721 = #8355 #12720
[instance] 0x0 #12721
[attach-enode] #12721 0
[end-of-instance]
[mk-app] #12721 if #12719 #664 #8343
[mk-app] #12722 if #12720 #8343 #664
[inst-discovered] theory-solving 0x0 arith# ; #12722
[mk-app] #12723 = #12722 #12721
[instance] 0x0 #12723
[attach-enode] #12723 0
[end-of-instance]
[mk-app] #12720 = #8334 #12721
[mk-app] #12722 or #12715 #11942 #12716 #12720
[mk-app] #12723 or #12717 #12720
[inst-discovered] theory-solving 0x0 basic# ; #12723
[mk-app] #12724 = #12723 #12722
[instance] 0x0 #12724
[attach-enode] #12724 0
[end-of-instance]
[mk-quant] #12717 internal_u_tokenizer!lex.scan._fuel_to_body_definition 4 #8347 #12722
[attach-var-names] #12717 (|fuel%| ; |Fuel|) (|w!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12723 not #8358
[mk-app] #12724 or #12723 #11872 #2115
[mk-app] #12725 not #12724
[inst-discovered] theory-solving 0x0 basic# ; #8359
[mk-app] #12726 = #8359 #12725
[instance] 0x0 #12726
[attach-enode] #12726 0
[end-of-instance]
[mk-app] #12726 not #12725
[inst-discovered] theory-solving 0x0 basic# ; #12726
[mk-app] #12727 = #12726 #12724
[instance] 0x0 #12727
[attach-enode] #12727 0
[end-of-instance]
[mk-app] #12725 or #12723 #11872 #2115 #8366
[mk-app] #12726 or #12724 #8366
[inst-discovered] theory-solving 0x0 basic# ; #12726
[mk-app] #12727 = #12726 #12725
[instance] 0x0 #12727
[attach-enode] #12727 0
[end-of-instance]
[mk-quant] #12724 internal_u_tokenizer!lex.scan.?_definition 3 #8368 #12725
[attach-var-names] #12724 (|w!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12726 or #8374 #12724
[mk-app] #12727 or #12723 #11872
[mk-app] #12728 not #12727
[inst-discovered] theory-solving 0x0 basic# ; #8371
[mk-app] #12729 = #8371 #12728
[instance] 0x0 #12729
[attach-enode] #12729 0
[end-of-instance]
[mk-app] #12729 not #12728
[inst-discovered] theory-solving 0x0 basic# ; #12729
[mk-app] #12730 = #12729 #12727
[instance] 0x0 #12730
[attach-enode] #12730 0
[end-of-instance]
[mk-app] #12728 not #8459
[mk-app] #12729 or #8447 #8454 #12728 #8442
[mk-app] #12730 not #12729
[inst-discovered] theory-solving 0x0 basic# ; #8460
[mk-app] #12731 = #8460 #12730
[instance] 0x0 #12731
[attach-enode] #12731 0
[end-of-instance]
[mk-app] #12731 if #12729 #11045 #11043
[mk-app] #12732 if #12730 #11043 #11045
[inst-discovered] theory-solving 0x0 datatype# ; #12732
[mk-app] #12733 = #12732 #12731
[instance] 0x0 #12733
[attach-enode] #12733 0
[end-of-instance]
[mk-app] #12730 = #8383 #12731
[mk-app] #12732 or #12723 #11872 #12730
[mk-app] #12733 or #12727 #12730
[inst-discovered] theory-solving 0x0 basic# ; #12733
[mk-app] #12734 = #12733 #12732
[instance] 0x0 #12734
[attach-enode] #12734 0
[end-of-instance]
[mk-quant] #12733 internal_u_tokenizer!lex.comment._fuel_to_body_definition 3 #8436 #12732
[attach-var-names] #12733 (|fuel%| ; |Fuel|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12727 or #6500 #192
[mk-app] #12734 not #12727
[inst-discovered] theory-solving 0x0 basic# ; #8466
[mk-app] #12735 = #8466 #12734
[instance] 0x0 #12735
[attach-enode] #12735 0
[end-of-instance]
[mk-app] #12735 not #12734
[inst-discovered] theory-solving 0x0 basic# ; #12735
[mk-app] #12736 = #12735 #12727
[instance] 0x0 #12736
[attach-enode] #12736 0
[end-of-instance]
[mk-app] #12734 or #6500 #192 #8482
[mk-app] #12735 or #12727 #8482
[inst-discovered] theory-solving 0x0 basic# ; #12735
[mk-app] #12736 = #12735 #12734
[instance] 0x0 #12736
[attach-enode] #12736 0
[end-of-instance]
[mk-quant] #12735 internal_u_tokenizer!lex.comment.?_definition 2 #8484 #12734
[attach-var-names] #12735 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12727 or #8490 #12735
[inst-discovered] theory-solving 0x0 basic# ; #8681
[mk-app] #12736 = #8681 #8681
[instance] 0x0 #12736
[attach-enode] #12736 0
[end-of-instance]
[mk-app] #12736 not #8702
[mk-app] #12737 or #11950 #11942 #12736 #181
[mk-app] #12738 not #12737
[inst-discovered] theory-solving 0x0 basic# ; #8703
[mk-app] #12739 = #8703 #12738
[instance] 0x0 #12739
[attach-enode] #12739 0
[end-of-instance]
[mk-app] #12739 not #12738
[inst-discovered] theory-solving 0x0 basic# ; #12739
[mk-app] #12740 = #12739 #12737
[instance] 0x0 #12740
[attach-enode] #12740 0
[end-of-instance]
[mk-app] #12739 or #11950 #11942 #12736 #181 #8705
[mk-app] #12740 or #12737 #8705
[inst-discovered] theory-solving 0x0 basic# ; #12740
[mk-app] #12741 = #12740 #12739
[instance] 0x0 #12741
[attach-enode] #12741 0
[end-of-instance]
[mk-quant] #12740 internal_u_tokenizer!lex.one.?_pre_post_definition 4 #8697 #12739
[attach-var-names] #12740 (|ok!| ; |Poly|) (|kind!| ; |Poly|) (|e!| ; |Poly|) (|k!| ; |Poly|)
[inst-discovered] theory-solving 0x0 basic# ; #8829
[mk-app] #12737 = #8829 #8829
[instance] 0x0 #12737
[attach-enode] #12737 0
[end-of-instance]
[mk-app] #12737 not #8753
[mk-app] #12738 or #8830 #12737
[mk-app] #12741 not #12738
[inst-discovered] theory-solving 0x0 basic# ; #8832
[mk-app] #12742 = #8832 #12741
[instance] 0x0 #12742
[attach-enode] #12742 0
[end-of-instance]
[mk-app] #12742 B #12741
[mk-app] #12743 u_tokenizer!lex.one.? #33 #8732 #8749 #12742
[mk-app] #12744 if #8741 #8745 #12743
[mk-app] #12745 if #8829 #12744 #8850
[mk-app] #12746 if #8717 #8723 #12745
[mk-app] #12747 = #8713 #12746
[mk-quant] #12748 internal_u_tokenizer!lex.step.?_definition 2 #8826 #12747
[attach-var-names] #12748 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12749 or #8836 #12748
[mk-app] #12750 or #6500 #192
[mk-app] #12751 not #12750
[inst-discovered] theory-solving 0x0 basic# ; #8466
[mk-app] #12752 = #8466 #12751
[instance] 0x0 #12752
[attach-enode] #12752 0
[end-of-instance]
[mk-app] #12752 not #12751
[inst-discovered] theory-solving 0x0 basic# ; #12752
[mk-app] #12753 = #12752 #12750
[instance] 0x0 #12753
[attach-enode] #12753 0
[end-of-instance]
[mk-app] #12751 or #6500 #192 #8842
[mk-app] #12752 or #12750 #8842
[inst-discovered] theory-solving 0x0 basic# ; #12752
[mk-app] #12753 = #12752 #12751
[instance] 0x0 #12753
[attach-enode] #12753 0
[end-of-instance]
[mk-quant] #12752 internal_u_tokenizer!lex.step.?_pre_post_definition 2 #8826 #12751
[attach-var-names] #12752 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12750 or #12723 #11872
[mk-app] #12753 not #12750
[inst-discovered] theory-solving 0x0 basic# ; #8371
[mk-app] #12754 = #8371 #12753
[instance] 0x0 #12754
[attach-enode] #12754 0
[end-of-instance]
[mk-app] #12754 not #12753
[inst-discovered] theory-solving 0x0 basic# ; #12754
[mk-app] #12755 = #12754 #12750
[instance] 0x0 #12755
[attach-enode] #12755 0
[end-of-instance]
[mk-app] #12753 not #8916
[mk-app] #12754 or #11436 #8907 #8912 #12753
[mk-app] #12755 not #12754
[inst-discovered] theory-solving 0x0 basic# ; #8918
[mk-app] #12756 = #8918 #12755
[instance] 0x0 #12756
[attach-enode] #12756 0
[end-of-instance]
[mk-app] #12756 not #8892
[mk-app] #12757 not #8893
[mk-app] #12758 or #12756 #12757
[mk-app] #12759 not #12758
[inst-discovered] theory-solving 0x0 basic# ; #8894
[mk-app] #12760 = #8894 #12759
[instance] 0x0 #12760
[attach-enode] #12760 0
[end-of-instance]
[mk-app] #12760 B #12759
[mk-app] #12761 %B #12760
[mk-app] #12762 u_tokenizer!lex.Lexed./Lexed #8922 #12761
[mk-app] #12763 if #12754 #8899 #12762
[mk-app] #12764 if #12755 #12762 #8899
[inst-discovered] theory-solving 0x0 datatype# ; #12764
[mk-app] #12765 = #12764 #12763
[instance] 0x0 #12765
[attach-enode] #12765 0
[end-of-instance]
[mk-app] #12755 = #8863 #12763
[mk-app] #12764 or #12723 #11872 #12755
[mk-app] #12765 or #12750 #12755
[inst-discovered] theory-solving 0x0 basic# ; #12765
[mk-app] #12766 = #12765 #12764
[instance] 0x0 #12766
[attach-enode] #12766 0
[end-of-instance]
[mk-quant] #12765 internal_u_tokenizer!lex.lexed._fuel_to_body_definition 3 #8903 #12764
[attach-var-names] #12765 (|fuel%| ; |Fuel|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12750 or #6500 #192
[mk-app] #12766 not #12750
[inst-discovered] theory-solving 0x0 basic# ; #8466
[mk-app] #12767 = #8466 #12766
[instance] 0x0 #12767
[attach-enode] #12767 0
[end-of-instance]
[mk-app] #12767 not #12766
[inst-discovered] theory-solving 0x0 basic# ; #12767
[mk-app] #12768 = #12767 #12750
[instance] 0x0 #12768
[attach-enode] #12768 0
[end-of-instance]
[mk-app] #12766 or #6500 #192 #8929
[mk-app] #12767 or #12750 #8929
[inst-discovered] theory-solving 0x0 basic# ; #12767
[mk-app] #12768 = #12767 #12766
[instance] 0x0 #12768
[attach-enode] #12768 0
[end-of-instance]
[mk-quant] #12767 internal_u_tokenizer!lex.lexed.?_definition 2 #8931 #12766
[attach-var-names] #12767 (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12750 or #8936 #12767
[mk-app] #12768 or #4068 #3963
[mk-app] #12769 not #12768
[inst-discovered] theory-solving 0x0 basic# ; #8951
[mk-app] #12770 = #8951 #12769
[instance] 0x0 #12770
[attach-enode] #12770 0
[end-of-instance]
[mk-app] #12770 not #12769
[inst-discovered] theory-solving 0x0 basic# ; #12770
[mk-app] #12771 = #12770 #12768
[instance] 0x0 #12771
[attach-enode] #12771 0
[end-of-instance]
[mk-app] #12769 or #192 #4068 #3963 #7649
[mk-app] #12770 or #192 #12768 #7649
[inst-discovered] theory-solving 0x0 basic# ; #12770
[mk-app] #12771 = #12770 #12769
[instance] 0x0 #12771
[attach-enode] #12771 0
[end-of-instance]
[mk-quant] #12768 user_u_tokenizer__lex__blank_between_0 1 #8943 #12769
[attach-var-names] #12768 (|i$| ; |Poly|)
[mk-app] #12770 not #12768
[mk-app] #12771 or #7667 #12770
[mk-app] #12772 not #12771
[mk-app] #12773 and #3963 #12768
[inst-discovered] theory-solving 0x0 basic# ; #12773
[mk-app] #12774 = #12773 #12772
[instance] 0x0 #12774
[attach-enode] #12774 0
[end-of-instance]
[mk-app] #12773 or #11463 #12772
[mk-app] #12774 not #11488
[mk-app] #12775 or #12774 #11490
[mk-app] #12776 not #12775
[inst-discovered] theory-solving 0x0 basic# ; #11492
[mk-app] #12777 = #11492 #12776
[instance] 0x0 #12777
[attach-enode] #12777 0
[end-of-instance]
[mk-app] #12777 not #12776
[inst-discovered] theory-solving 0x0 basic# ; #12777
[mk-app] #12778 = #12777 #12775
[instance] 0x0 #12778
[attach-enode] #12778 0
[end-of-instance]
[mk-app] #12776 or #11466 #12774 #11490 #11476
[mk-app] #12777 or #11466 #12775 #11476
[inst-discovered] theory-solving 0x0 basic# ; #12777
[mk-app] #12778 = #12777 #12776
[instance] 0x0 #12778
[attach-enode] #12778 0
[end-of-instance]
[mk-app] #12775 not #12776
[mk-app] #12777 or #8940 #7667 #12775
[inst-discovered] theory-solving 0x0 basic# ; #12777
[mk-app] #12778 = #12777 #12777
[instance] 0x0 #12778
[attach-enode] #12778 0
[end-of-instance]
[mk-app] #12778 not #12773
[mk-app] #12779 not #12777
[mk-app] #12780 or #12778 #12779
[mk-app] #12781 not #12780
[mk-app] #12782 and #12773 #12777
[inst-discovered] theory-solving 0x0 basic# ; #12782
[mk-app] #12783 = #12782 #12781
[instance] 0x0 #12783
[attach-enode] #12783 0
[end-of-instance]
[mk-quant] #12782 internal_u_tokenizer!lex.blank_between.?_definition 3 #8947 #12781
[attach-var-names] #12782 (|b!| ; |Poly|) (|a!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12783 or #8957 #12782
[mk-app] #12784 not #8965
[mk-app] #12785 or #12715 #11942 #12784
[mk-app] #12786 not #12785
[inst-discovered] theory-solving 0x0 basic# ; #8487
[mk-app] #12787 = #8487 #12786
[instance] 0x0 #12787
[attach-enode] #12787 0
[end-of-instance]
[mk-app] #12787 not #12786
[inst-discovered] theory-solving 0x0 basic# ; #12787
[mk-app] #12788 = #12787 #12785
[instance] 0x0 #12788
[attach-enode] #12788 0
[end-of-instance]
[mk-app] #12786 not #8998
[mk-app] #12787 not #9005
[mk-app] #12788 not #8984
[mk-app] #12789 not #8989
[mk-app] #12790 or #12786 #9001 #12787 #12788 #12789
[mk-app] #12791 not #12790
[inst-discovered] theory-solving 0x0 basic# ; #9007
[mk-app] #12792 = #9007 #12791
[instance] 0x0 #12792
[attach-enode] #12792 0
[end-of-instance]
[mk-app] #12792 if #8969 #8971 #12791
[mk-app] #12793 = #8967 #12792
[mk-app] #12794 or #12715 #11942 #12784 #12793
[mk-app] #12795 or #12785 #12793
[inst-discovered] theory-solving 0x0 basic# ; #12795
[mk-app] #12796 = #12795 #12794
[instance] 0x0 #12796
[attach-enode] #12796 0
[end-of-instance]
[mk-quant] #12785 internal_u_tokenizer!lex.covers._fuel_to_body_definition 4 #8994 #12794
[attach-var-names] #12785 (|fuel%| ; |Fuel|) (|toks!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12795 or #12723 #11872 #1552
[mk-app] #12796 not #12795
[inst-discovered] theory-solving 0x0 basic# ; #9010
[mk-app] #12797 = #9010 #12796
[instance] 0x0 #12797
[attach-enode] #12797 0
[end-of-instance]
[mk-app] #12797 not #12796
[inst-discovered] theory-solving 0x0 basic# ; #12797
[mk-app] #12798 = #12797 #12795
[instance] 0x0 #12798
[attach-enode] #12798 0
[end-of-instance]
[mk-app] #12796 or #12723 #11872 #1552 #9017
[mk-app] #12797 or #12795 #9017
[inst-discovered] theory-solving 0x0 basic# ; #12797
[mk-app] #12798 = #12797 #12796
[instance] 0x0 #12798
[attach-enode] #12798 0
[end-of-instance]
[mk-quant] #12795 internal_u_tokenizer!lex.covers.?_definition 3 #9019 #12796
[attach-var-names] #12795 (|toks!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12797 or #9025 #12795
[mk-app] #12798 not #9400
[mk-app] #12799 not #9405
[mk-app] #12800 not #9409
[mk-app] #12801 or #12798 #12799 #12800
[mk-app] #12802 not #12801
[inst-discovered] theory-solving 0x0 basic# ; #9415
[mk-app] #12803 = #9415 #12802
[instance] 0x0 #12803
[attach-enode] #12803 0
[end-of-instance]
[mk-app] #12803 = #12801 #9391
[mk-app] #12804 not #12803
[mk-app] #12805 = #9391 #12802
[inst-discovered] theory-solving 0x0 basic# ; #12805
[mk-app] #12806 = #12805 #12804
[instance] 0x0 #12806
[attach-enode] #12806 0
[end-of-instance]
[mk-app] #12802 not #12801
[inst-discovered] theory-solving 0x0 basic# ; #12804
[mk-app] #12802 = #12804 #12804
[instance] 0x0 #12802
[attach-enode] #12802 0
[end-of-instance]
[mk-quant] #12802 internal_u_tokenizer!tokenizer.is_tok.?_definition 3 #9412 #12804
[attach-var-names] #12802 (|k!| ; |Poly|) (|x!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12805 or #9418 #12802
[mk-app] #12806 or #11800 #9443
[mk-app] #12807 not #12806
[inst-discovered] theory-solving 0x0 basic# ; #9447
[mk-app] #12808 = #9447 #12807
[instance] 0x0 #12808
[attach-enode] #12808 0
[end-of-instance]
[mk-app] #12808 not #12807
[inst-discovered] theory-solving 0x0 basic# ; #12808
[mk-app] #12809 = #12808 #12806
[instance] 0x0 #12809
[attach-enode] #12809 0
[end-of-instance]
[mk-app] #12807 or #192 #11800 #9443 #9431
[mk-app] #12808 or #192 #12806 #9431
[inst-discovered] theory-solving 0x0 basic# ; #12808
[mk-app] #12809 = #12808 #12807
[instance] 0x0 #12809
[attach-enode] #12809 0
[end-of-instance]
[mk-quant] #12806 user_u_tokenizer__tokenizer__are_toks_0 1 #9434 #12807
[attach-var-names] #12806 (|i$| ; |Poly|)
[mk-app] #12808 not #12806
[mk-app] #12809 or #11482 #12808
[mk-app] #12810 not #12809
[mk-app] #12811 and #9425 #12806
[inst-discovered] theory-solving 0x0 basic# ; #12811
[mk-app] #12812 = #12811 #12810
[instance] 0x0 #12812
[attach-enode] #12812 0
[end-of-instance]
[mk-app] #12811 or #11481 #12810
[mk-app] #12812 not #11501
[mk-app] #12813 or #12812 #11522
[mk-app] #12814 not #12813
[inst-discovered] theory-solving 0x0 basic# ; #11523
[mk-app] #12815 = #11523 #12814
[instance] 0x0 #12815
[attach-enode] #12815 0
[end-of-instance]
[mk-app] #12815 not #12814
[inst-discovered] theory-solving 0x0 basic# ; #12815
[mk-app] #12816 = #12815 #12813
[instance] 0x0 #12816
[attach-enode] #12816 0
[end-of-instance]
[mk-app] #12814 or #11496 #12812 #11522 #11510
[mk-app] #12815 or #11496 #12813 #11510
[inst-discovered] theory-solving 0x0 basic# ; #12815
[mk-app] #12816 = #12815 #12814
[instance] 0x0 #12816
[attach-enode] #12816 0
[end-of-instance]
[mk-app] #12813 not #12814
[mk-app] #12815 or #9422 #11482 #12813
[inst-discovered] theory-solving 0x0 basic# ; #12815
[mk-app] #12816 = #12815 #12815
[instance] 0x0 #12816
[attach-enode] #12816 0
[end-of-instance]
[mk-app] #12816 not #12811
[mk-app] #12817 not #12815
[mk-app] #12818 or #12816 #12817
[mk-app] #12819 not #12818
[mk-app] #12820 and #12811 #12815
[inst-discovered] theory-solving 0x0 basic# ; #12820
[mk-app] #12821 = #12820 #12819
[instance] 0x0 #12821
[attach-enode] #12821 0
[end-of-instance]
[mk-quant] #12820 internal_u_tokenizer!tokenizer.are_toks.?_definition 3 #9438 #12819
[attach-var-names] #12820 (|ks!| ; |Poly|) (|xs!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12821 or #9452 #12820
[mk-app] #12822 not #9462
[mk-app] #12823 not #9471
[mk-app] #12824 not #9473
[mk-app] #12825 not #9474
[mk-app] #12824 or #12822 #12823 #12825
[mk-app] #12826 not #12824
[inst-discovered] theory-solving 0x0 basic# ; #9481
[mk-app] #12827 = #9481 #12826
[instance] 0x0 #12827
[attach-enode] #12827 0
[end-of-instance]
[mk-app] #12827 if #9456 #9461 #12826
[mk-app] #12828 = #9455 #12827
[mk-quant] #12829 internal_u_tokenizer!tokenizer.progress.?_definition 5 #9478 #12828
[attach-var-names] #12829 (|done!| ; |Poly|) (|wrong!| ; |Poly|) (|xs!| ; |Poly|) (|k!| ; |Poly|) (|t!| ; |Poly|)
[mk-app] #12830 or #9485 #12829
[mk-app] #12831 or #3188 #2989
[mk-app] #12832 not #12831
[inst-discovered] theory-solving 0x0 basic# ; #3237
[mk-app] #12833 = #3237 #12832
[instance] 0x0 #12833
[attach-enode] #12833 0
[end-of-instance]
[mk-app] #12833 not #12832
[inst-discovered] theory-solving 0x0 basic# ; #12833
[mk-app] #12834 = #12833 #12831
[instance] 0x0 #12834
[attach-enode] #12834 0
[end-of-instance]
[mk-app] #12833 or #3188 #2989 #9510
[mk-app] #12834 or #12831 #9510
[inst-discovered] theory-solving 0x0 basic# ; #12834
[mk-app] #12835 = #12834 #12833
[instance] 0x0 #12835
[attach-enode] #12835 0
[end-of-instance]
[mk-quant] #12834 internal_vstd__view__impl&__4_trait_impl_definition 2 #9512 #12833
[attach-var-names] #12834 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12831 or #3188 #2989
[mk-app] #12832 not #12831
[inst-discovered] theory-solving 0x0 basic# ; #3237
[mk-app] #12835 = #3237 #12832
[instance] 0x0 #12835
[attach-enode] #12835 0
[end-of-instance]
[mk-app] #12835 not #12832
[inst-discovered] theory-solving 0x0 basic# ; #12835
[mk-app] #12836 = #12835 #12831
[instance] 0x0 #12836
[attach-enode] #12836 0
[end-of-instance]
[mk-app] #12835 or #3188 #2989 #9516
[mk-app] #12836 or #12831 #9516
[inst-discovered] theory-solving 0x0 basic# ; #12836
[mk-app] #12837 = #12836 #12835
[instance] 0x0 #12837
[attach-enode] #12837 0
[end-of-instance]
[mk-quant] #12836 internal_vstd__view__impl&__6_trait_impl_definition 2 #9518 #12835
[attach-var-names] #12836 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12831 or #3188 #2989
[mk-app] #12832 not #12831
[inst-discovered] theory-solving 0x0 basic# ; #3237
[mk-app] #12837 = #3237 #12832
[instance] 0x0 #12837
[attach-enode] #12837 0
[end-of-instance]
[mk-app] #12837 not #12832
[inst-discovered] theory-solving 0x0 basic# ; #12837
[mk-app] #12838 = #12837 #12831
[instance] 0x0 #12838
[attach-enode] #12838 0
[end-of-instance]
[mk-app] #12837 or #3188 #2989 #9535
[mk-app] #12838 or #12831 #9535
[inst-discovered] theory-solving 0x0 basic# ; #12838
[mk-app] #12839 = #12838 #12837
[instance] 0x0 #12839
[attach-enode] #12839 0
[end-of-instance]
[mk-quant] #12838 internal_vstd__view__impl&__46_trait_impl_definition 2 #9537 #12837
[attach-var-names] #12838 (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #12831 or #4044 #3188 #11667 #2989
[mk-app] #12832 not #12831
[inst-discovered] theory-solving 0x0 basic# ; #3348
[mk-app] #12839 = #3348 #12832
[instance] 0x0 #12839
[attach-enode] #12839 0
[end-of-instance]
[mk-app] #12839 not #12832
[inst-discovered] theory-solving 0x0 basic# ; #12839
[mk-app] #12840 = #12839 #12831
[instance] 0x0 #12840
[attach-enode] #12840 0
[end-of-instance]
[mk-app] #12839 or #4044 #3188 #11667 #2989 #9541
[mk-app] #12840 or #12831 #9541
[inst-discovered] theory-solving 0x0 basic# ; #12840
[mk-app] #12841 = #12840 #12839
[instance] 0x0 #12841
[attach-enode] #12841 0
[end-of-instance]
[mk-quant] #12840 internal_vstd__view__impl&__48_trait_impl_definition 4 #9543 #12839
[attach-var-names] #12840 (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|A0&| ; |Type|) (|A0&.| ; |Dcr|)
[mk-app] #12831 or #3188 #3057
[mk-app] #12832 not #12831
[inst-discovered] theory-solving 0x0 basic# ; #3425
[mk-app] #12841 = #3425 #12832
[instance] 0x0 #12841
[attach-enode] #12841 0
[end-of-instance]
[mk-app] #12841 not #12832
[inst-discovered] theory-solving 0x0 basic# ; #12841
[mk-app] #12842 = #12841 #12831
[instance] 0x0 #12842
[attach-enode] #12842 0
[end-of-instance]
[mk-app] #12841 or #3188 #3057 #9553
[mk-app] #12842 or #12831 #9553
[inst-discovered] theory-solving 0x0 basic# ; #12842
[mk-app] #12843 = #12842 #12841
[instance] 0x0 #12843
[attach-enode] #12843 0
[end-of-instance]
[mk-quant] #12842 internal_vstd__std_specs__iter__impl&__2_trait_impl_definition 2 #9555 #12841
[attach-var-names] #12842 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12831 or #3188 #3087
[mk-app] #12832 not #12831
[inst-discovered] theory-solving 0x0 basic# ; #3748
[mk-app] #12843 = #3748 #12832
[instance] 0x0 #12843
[attach-enode] #12843 0
[end-of-instance]
[mk-app] #12843 not #12832
[inst-discovered] theory-solving 0x0 basic# ; #12843
[mk-app] #12844 = #12843 #12831
[instance] 0x0 #12844
[attach-enode] #12844 0
[end-of-instance]
[mk-app] #12843 or #3188 #3087 #9559
[mk-app] #12844 or #12831 #9559
[inst-discovered] theory-solving 0x0 basic# ; #12844
[mk-app] #12845 = #12844 #12843
[instance] 0x0 #12845
[attach-enode] #12845 0
[end-of-instance]
[mk-quant] #12844 internal_core__iter__range__impl&__6_trait_impl_definition 2 #9561 #12843
[attach-var-names] #12844 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12831 or #3188 #3087
[mk-app] #12832 not #12831
[inst-discovered] theory-solving 0x0 basic# ; #3748
[mk-app] #12845 = #3748 #12832
[instance] 0x0 #12845
[attach-enode] #12845 0
[end-of-instance]
[mk-app] #12845 not #12832
[inst-discovered] theory-solving 0x0 basic# ; #12845
[mk-app] #12846 = #12845 #12831
[instance] 0x0 #12846
[attach-enode] #12846 0
[end-of-instance]
[mk-app] #12845 or #3188 #3087 #9565
[mk-app] #12846 or #12831 #9565
[inst-discovered] theory-solving 0x0 basic# ; #12846
[mk-app] #12847 = #12846 #12845
[instance] 0x0 #12847
[attach-enode] #12847 0
[end-of-instance]
[mk-quant] #12846 internal_vstd__std_specs__range__impl&__3_trait_impl_definition 2 #9567 #12845
[attach-var-names] #12846 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12831 or #4044 #3188 #12140 #10314 #2996
[mk-app] #12832 not #12831
[inst-discovered] theory-solving 0x0 basic# ; #9583
[mk-app] #12847 = #9583 #12832
[instance] 0x0 #12847
[attach-enode] #12847 0
[end-of-instance]
[mk-app] #12847 not #12832
[inst-discovered] theory-solving 0x0 basic# ; #12847
[mk-app] #12848 = #12847 #12831
[instance] 0x0 #12848
[attach-enode] #12848 0
[end-of-instance]
[mk-app] #12847 or #4044 #3188 #12140 #10314 #2996 #9584
[mk-app] #12848 or #12831 #9584
[inst-discovered] theory-solving 0x0 basic# ; #12848
[mk-app] #12849 = #12848 #12847
[instance] 0x0 #12849
[attach-enode] #12849 0
[end-of-instance]
[mk-quant] #12848 internal_alloc__boxed__impl&__15_trait_impl_definition 4 #9586 #12847
[attach-var-names] #12848 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12831 or #4044 #3188 #12140 #10314 #2996
[mk-app] #12832 not #12831
[inst-discovered] theory-solving 0x0 basic# ; #9583
[mk-app] #12849 = #9583 #12832
[instance] 0x0 #12849
[attach-enode] #12849 0
[end-of-instance]
[mk-app] #12849 not #12832
[inst-discovered] theory-solving 0x0 basic# ; #12849
[mk-app] #12850 = #12849 #12831
[instance] 0x0 #12850
[attach-enode] #12850 0
[end-of-instance]
[mk-app] #12849 or #4044 #3188 #12140 #10314 #2996 #9591
[mk-app] #12850 or #12831 #9591
[inst-discovered] theory-solving 0x0 basic# ; #12850
[mk-app] #12851 = #12850 #12849
[instance] 0x0 #12851
[attach-enode] #12851 0
[end-of-instance]
[mk-quant] #12850 internal_alloc__boxed__impl&__16_trait_impl_definition 4 #9593 #12849
[attach-var-names] #12850 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12831 or #3188 #2996
[mk-app] #12832 not #12831
[inst-discovered] theory-solving 0x0 basic# ; #9610
[mk-app] #12851 = #9610 #12832
[instance] 0x0 #12851
[attach-enode] #12851 0
[end-of-instance]
[mk-app] #12851 not #12832
[inst-discovered] theory-solving 0x0 basic# ; #12851
[mk-app] #12852 = #12851 #12831
[instance] 0x0 #12852
[attach-enode] #12852 0
[end-of-instance]
[mk-app] #12851 or #3188 #2996 #9611
[mk-app] #12852 or #12831 #9611
[inst-discovered] theory-solving 0x0 basic# ; #12852
[mk-app] #12853 = #12852 #12851
[instance] 0x0 #12853
[attach-enode] #12853 0
[end-of-instance]
[mk-quant] #12852 internal_core__ops__range__impl&__49_trait_impl_definition 2 #9613 #12851
[attach-var-names] #12852 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #12831 or #4044 #11716 #12140
[mk-app] #12832 not #12831
[inst-discovered] theory-solving 0x0 basic# ; #9022
[mk-app] #12853 = #9022 #12832
[instance] 0x0 #12853
[attach-enode] #12853 0
[end-of-instance]
[mk-app] #12853 not #12832
[inst-discovered] theory-solving 0x0 basic# ; #12853
[mk-app] #12854 = #12853 #12831
[instance] 0x0 #12854
[attach-enode] #12854 0
[end-of-instance]
[mk-app] #12832 or #4044 #11716 #12140 #9619
[mk-app] #12853 or #12831 #9619
[inst-discovered] theory-solving 0x0 basic# ; #12853
[mk-app] #12854 = #12853 #12832
[instance] 0x0 #12854
[attach-enode] #12854 0
[end-of-instance]
[mk-quant] #12831 internal_core__array__impl&__20_trait_impl_definition 4 #9621 #12832
[attach-var-names] #12831 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12853 or #4044 #3188 #12140 #2996
[mk-app] #12854 not #12853
[inst-discovered] theory-solving 0x0 basic# ; #9626
[mk-app] #12855 = #9626 #12854
[instance] 0x0 #12855
[attach-enode] #12855 0
[end-of-instance]
[mk-app] #12855 not #12854
[inst-discovered] theory-solving 0x0 basic# ; #12855
[mk-app] #12856 = #12855 #12853
[instance] 0x0 #12856
[attach-enode] #12856 0
[end-of-instance]
[mk-app] #12855 or #4044 #3188 #12140 #2996 #9627
[mk-app] #12856 or #12853 #9627
[inst-discovered] theory-solving 0x0 basic# ; #12856
[mk-app] #12857 = #12856 #12855
[instance] 0x0 #12857
[attach-enode] #12857 0
[end-of-instance]
[mk-quant] #12856 internal_core__result__impl&__5_trait_impl_definition 4 #9629 #12855
[attach-var-names] #12856 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12853 or #3188 #10314 #2996
[mk-app] #12854 not #12853
[inst-discovered] theory-solving 0x0 basic# ; #9641
[mk-app] #12857 = #9641 #12854
[instance] 0x0 #12857
[attach-enode] #12857 0
[end-of-instance]
[mk-app] #12857 not #12854
[inst-discovered] theory-solving 0x0 basic# ; #12857
[mk-app] #12858 = #12857 #12853
[instance] 0x0 #12858
[attach-enode] #12858 0
[end-of-instance]
[mk-app] #12857 or #3188 #10314 #2996 #9643
[mk-app] #12858 or #12853 #9643
[inst-discovered] theory-solving 0x0 basic# ; #12858
[mk-app] #12859 = #12858 #12857
[instance] 0x0 #12859
[attach-enode] #12859 0
[end-of-instance]
[mk-quant] #12858 internal_alloc__rc__impl&__35_trait_impl_definition 4 #9645 #12857
[attach-var-names] #12858 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12853 or #3188 #10314 #2996
[mk-app] #12854 not #12853
[inst-discovered] theory-solving 0x0 basic# ; #9641
[mk-app] #12859 = #9641 #12854
[instance] 0x0 #12859
[attach-enode] #12859 0
[end-of-instance]
[mk-app] #12859 not #12854
[inst-discovered] theory-solving 0x0 basic# ; #12859
[mk-app] #12860 = #12859 #12853
[instance] 0x0 #12860
[attach-enode] #12860 0
[end-of-instance]
[mk-app] #12859 or #3188 #10314 #2996 #9652
[mk-app] #12860 or #12853 #9652
[inst-discovered] theory-solving 0x0 basic# ; #12860
[mk-app] #12861 = #12860 #12859
[instance] 0x0 #12861
[attach-enode] #12861 0
[end-of-instance]
[mk-quant] #12860 internal_alloc__sync__impl&__32_trait_impl_definition 4 #9654 #12859
[attach-var-names] #12860 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12853 or #4044 #3188 #12140 #10314 #2996
[mk-app] #12854 not #12853
[inst-discovered] theory-solving 0x0 basic# ; #9583
[mk-app] #12861 = #9583 #12854
[instance] 0x0 #12861
[attach-enode] #12861 0
[end-of-instance]
[mk-app] #12861 not #12854
[inst-discovered] theory-solving 0x0 basic# ; #12861
[mk-app] #12862 = #12861 #12853
[instance] 0x0 #12862
[attach-enode] #12862 0
[end-of-instance]
[mk-app] #12861 or #4044 #3188 #12140 #10314 #2996 #9658
[mk-app] #12862 or #12853 #9658
[inst-discovered] theory-solving 0x0 basic# ; #12862
[mk-app] #12863 = #12862 #12861
[instance] 0x0 #12863
[attach-enode] #12863 0
[end-of-instance]
[mk-quant] #12862 internal_alloc__vec__into_iter__impl&__15_trait_impl_definition 4 #9660 #12861
[attach-var-names] #12862 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12853 or #4044 #3188 #12140 #10314 #2996
[mk-app] #12854 not #12853
[inst-discovered] theory-solving 0x0 basic# ; #9583
[mk-app] #12863 = #9583 #12854
[instance] 0x0 #12863
[attach-enode] #12863 0
[end-of-instance]
[mk-app] #12863 not #12854
[inst-discovered] theory-solving 0x0 basic# ; #12863
[mk-app] #12864 = #12863 #12853
[instance] 0x0 #12864
[attach-enode] #12864 0
[end-of-instance]
[mk-app] #12863 or #4044 #3188 #12140 #10314 #2996 #9664
[mk-app] #12864 or #12853 #9664
[inst-discovered] theory-solving 0x0 basic# ; #12864
[mk-app] #12865 = #12864 #12863
[instance] 0x0 #12865
[attach-enode] #12865 0
[end-of-instance]
[mk-quant] #12864 internal_alloc__vec__impl&__12_trait_impl_definition 4 #9666 #12863
[attach-var-names] #12864 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12853 or #3188 #3003
[mk-app] #12854 not #12853
[inst-discovered] theory-solving 0x0 basic# ; #9677
[mk-app] #12865 = #9677 #12854
[instance] 0x0 #12865
[attach-enode] #12865 0
[end-of-instance]
[mk-app] #12865 not #12854
[inst-discovered] theory-solving 0x0 basic# ; #12865
[mk-app] #12866 = #12865 #12853
[instance] 0x0 #12866
[attach-enode] #12866 0
[end-of-instance]
[mk-app] #12865 or #3188 #3003 #9679
[mk-app] #12866 or #12853 #9679
[inst-discovered] theory-solving 0x0 basic# ; #12866
[mk-app] #12867 = #12866 #12865
[instance] 0x0 #12867
[attach-enode] #12867 0
[end-of-instance]
[mk-quant] #12866 internal_verus_builtin__impl&__9_trait_impl_definition 2 #9681 #12865
[attach-var-names] #12866 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12853 not #9703
[mk-app] #12854 or #11744 #4044 #11716 #12853
[mk-app] #12867 not #12854
[inst-discovered] theory-solving 0x0 basic# ; #9623
[mk-app] #12868 = #9623 #12867
[instance] 0x0 #12868
[attach-enode] #12868 0
[end-of-instance]
[mk-app] #12868 not #12867
[inst-discovered] theory-solving 0x0 basic# ; #12868
[mk-app] #12869 = #12868 #12854
[instance] 0x0 #12869
[attach-enode] #12869 0
[end-of-instance]
[mk-app] #12867 or #11744 #4044 #11716 #12853 #9706
[mk-app] #12868 or #12854 #9706
[inst-discovered] theory-solving 0x0 basic# ; #12868
[mk-app] #12869 = #12868 #12867
[instance] 0x0 #12869
[attach-enode] #12869 0
[end-of-instance]
[mk-quant] #12868 internal_core__array__equality__impl&__4_trait_impl_definition 6 #9708 #12867
[attach-var-names] #12868 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12854 or #11744 #4044 #3188 #10314 #12853
[mk-app] #12869 not #12854
[inst-discovered] theory-solving 0x0 basic# ; #9714
[mk-app] #12870 = #9714 #12869
[instance] 0x0 #12870
[attach-enode] #12870 0
[end-of-instance]
[mk-app] #12870 not #12869
[inst-discovered] theory-solving 0x0 basic# ; #12870
[mk-app] #12871 = #12870 #12854
[instance] 0x0 #12871
[attach-enode] #12871 0
[end-of-instance]
[mk-app] #12870 or #11744 #4044 #3188 #10314 #12853 #9715
[mk-app] #12871 or #12854 #9715
[inst-discovered] theory-solving 0x0 basic# ; #12871
[mk-app] #12872 = #12871 #12870
[instance] 0x0 #12872
[attach-enode] #12872 0
[end-of-instance]
[mk-quant] #12871 internal_alloc__vec__partial_eq__impl&__3_trait_impl_definition 6 #9717 #12870
[attach-var-names] #12871 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12854 or #11744 #4044 #11716 #12853
[mk-app] #12869 not #12854
[inst-discovered] theory-solving 0x0 basic# ; #9623
[mk-app] #12872 = #9623 #12869
[instance] 0x0 #12872
[attach-enode] #12872 0
[end-of-instance]
[mk-app] #12872 not #12869
[inst-discovered] theory-solving 0x0 basic# ; #12872
[mk-app] #12873 = #12872 #12854
[instance] 0x0 #12873
[attach-enode] #12873 0
[end-of-instance]
[mk-app] #12869 or #11744 #4044 #11716 #12853 #9747
[mk-app] #12872 or #12854 #9747
[inst-discovered] theory-solving 0x0 basic# ; #12872
[mk-app] #12873 = #12872 #12869
[instance] 0x0 #12873
[attach-enode] #12873 0
[end-of-instance]
[mk-quant] #12872 internal_core__array__equality__impl&__6_trait_impl_definition 6 #9749 #12869
[attach-var-names] #12872 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12854 or #11744 #4044 #3188 #10314 #12853
[mk-app] #12873 not #12854
[inst-discovered] theory-solving 0x0 basic# ; #9714
[mk-app] #12874 = #9714 #12873
[instance] 0x0 #12874
[attach-enode] #12874 0
[end-of-instance]
[mk-app] #12874 not #12873
[inst-discovered] theory-solving 0x0 basic# ; #12874
[mk-app] #12875 = #12874 #12854
[instance] 0x0 #12875
[attach-enode] #12875 0
[end-of-instance]
[mk-app] #12874 or #11744 #4044 #3188 #10314 #12853 #9753
[mk-app] #12875 or #12854 #9753
[inst-discovered] theory-solving 0x0 basic# ; #12875
[mk-app] #12876 = #12875 #12874
[instance] 0x0 #12876
[attach-enode] #12876 0
[end-of-instance]
[mk-quant] #12875 internal_alloc__vec__partial_eq__impl&__4_trait_impl_definition 6 #9755 #12874
[attach-var-names] #12875 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12854 not #9759
[mk-app] #12873 or #3188 #12854
[mk-app] #12876 not #12873
[inst-discovered] theory-solving 0x0 basic# ; #9760
[mk-app] #12877 = #9760 #12876
[instance] 0x0 #12877
[attach-enode] #12877 0
[end-of-instance]
[mk-app] #12877 not #12876
[inst-discovered] theory-solving 0x0 basic# ; #12877
[mk-app] #12878 = #12877 #12873
[instance] 0x0 #12878
[attach-enode] #12878 0
[end-of-instance]
[mk-app] #12877 or #3188 #12854 #9761
[mk-app] #12878 or #12873 #9761
[inst-discovered] theory-solving 0x0 basic# ; #12878
[mk-app] #12879 = #12878 #12877
[instance] 0x0 #12879
[attach-enode] #12879 0
[end-of-instance]
[mk-quant] #12878 internal_core__ops__range__impl&__52_trait_impl_definition 2 #9763 #12877
[attach-var-names] #12878 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #12873 or #11744 #4044 #11716 #12853
[mk-app] #12876 not #12873
[inst-discovered] theory-solving 0x0 basic# ; #9623
[mk-app] #12879 = #9623 #12876
[instance] 0x0 #12879
[attach-enode] #12879 0
[end-of-instance]
[mk-app] #12879 not #12876
[inst-discovered] theory-solving 0x0 basic# ; #12879
[mk-app] #12880 = #12879 #12873
[instance] 0x0 #12880
[attach-enode] #12880 0
[end-of-instance]
[mk-app] #12876 or #11744 #4044 #11716 #12853 #9769
[mk-app] #12879 or #12873 #9769
[inst-discovered] theory-solving 0x0 basic# ; #12879
[mk-app] #12880 = #12879 #12876
[instance] 0x0 #12880
[attach-enode] #12880 0
[end-of-instance]
[mk-quant] #12879 internal_core__array__equality__impl&__0_trait_impl_definition 6 #9771 #12876
[attach-var-names] #12879 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12873 or #11744 #4044 #11716 #12853
[mk-app] #12880 not #12873
[inst-discovered] theory-solving 0x0 basic# ; #9623
[mk-app] #12881 = #9623 #12880
[instance] 0x0 #12881
[attach-enode] #12881 0
[end-of-instance]
[mk-app] #12881 not #12880
[inst-discovered] theory-solving 0x0 basic# ; #12881
[mk-app] #12882 = #12881 #12873
[instance] 0x0 #12882
[attach-enode] #12882 0
[end-of-instance]
[mk-app] #12880 or #11744 #4044 #11716 #12853 #9775
[mk-app] #12881 or #12873 #9775
[inst-discovered] theory-solving 0x0 basic# ; #12881
[mk-app] #12882 = #12881 #12880
[instance] 0x0 #12882
[attach-enode] #12882 0
[end-of-instance]
[mk-quant] #12881 internal_core__array__equality__impl&__1_trait_impl_definition 6 #9777 #12880
[attach-var-names] #12881 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12873 or #11744 #4044 #11716 #12853
[mk-app] #12882 not #12873
[inst-discovered] theory-solving 0x0 basic# ; #9623
[mk-app] #12883 = #9623 #12882
[instance] 0x0 #12883
[attach-enode] #12883 0
[end-of-instance]
[mk-app] #12883 not #12882
[inst-discovered] theory-solving 0x0 basic# ; #12883
[mk-app] #12884 = #12883 #12873
[instance] 0x0 #12884
[attach-enode] #12884 0
[end-of-instance]
[mk-app] #12882 or #11744 #4044 #11716 #12853 #9781
[mk-app] #12883 or #12873 #9781
[inst-discovered] theory-solving 0x0 basic# ; #12883
[mk-app] #12884 = #12883 #12882
[instance] 0x0 #12884
[attach-enode] #12884 0
[end-of-instance]
[mk-quant] #12883 internal_core__array__equality__impl&__3_trait_impl_definition 6 #9783 #12882
[attach-var-names] #12883 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12873 or #11744 #4044 #11716 #12853
[mk-app] #12884 not #12873
[inst-discovered] theory-solving 0x0 basic# ; #9623
[mk-app] #12885 = #9623 #12884
[instance] 0x0 #12885
[attach-enode] #12885 0
[end-of-instance]
[mk-app] #12885 not #12884
[inst-discovered] theory-solving 0x0 basic# ; #12885
[mk-app] #12886 = #12885 #12873
[instance] 0x0 #12886
[attach-enode] #12886 0
[end-of-instance]
[mk-app] #12884 or #11744 #4044 #11716 #12853 #9788
[mk-app] #12885 or #12873 #9788
[inst-discovered] theory-solving 0x0 basic# ; #12885
[mk-app] #12886 = #12885 #12884
[instance] 0x0 #12886
[attach-enode] #12886 0
[end-of-instance]
[mk-quant] #12885 internal_core__array__equality__impl&__5_trait_impl_definition 6 #9790 #12884
[attach-var-names] #12885 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12873 or #11744 #4044 #11716 #12853
[mk-app] #12886 not #12873
[inst-discovered] theory-solving 0x0 basic# ; #9623
[mk-app] #12887 = #9623 #12886
[instance] 0x0 #12887
[attach-enode] #12887 0
[end-of-instance]
[mk-app] #12887 not #12886
[inst-discovered] theory-solving 0x0 basic# ; #12887
[mk-app] #12888 = #12887 #12873
[instance] 0x0 #12888
[attach-enode] #12888 0
[end-of-instance]
[mk-app] #12886 or #11744 #4044 #11716 #12853 #9794
[mk-app] #12887 or #12873 #9794
[inst-discovered] theory-solving 0x0 basic# ; #12887
[mk-app] #12888 = #12887 #12886
[instance] 0x0 #12888
[attach-enode] #12888 0
[end-of-instance]
[mk-quant] #12887 internal_core__array__equality__impl&__2_trait_impl_definition 6 #9796 #12886
[attach-var-names] #12887 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12873 or #4044 #3188 #9694
[mk-app] #12888 not #12873
[inst-discovered] theory-solving 0x0 basic# ; #9800
[mk-app] #12889 = #9800 #12888
[instance] 0x0 #12889
[attach-enode] #12889 0
[end-of-instance]
[mk-app] #12889 not #12888
[inst-discovered] theory-solving 0x0 basic# ; #12889
[mk-app] #12890 = #12889 #12873
[instance] 0x0 #12890
[attach-enode] #12890 0
[end-of-instance]
[mk-app] #12889 or #4044 #3188 #9694 #9801
[mk-app] #12890 or #12873 #9801
[inst-discovered] theory-solving 0x0 basic# ; #12890
[mk-app] #12891 = #12890 #12889
[instance] 0x0 #12891
[attach-enode] #12891 0
[end-of-instance]
[mk-quant] #12890 internal_core__slice__cmp__impl&__0_trait_impl_definition 4 #9803 #12889
[attach-var-names] #12890 (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12873 or #11744 #4044 #3188 #10314 #12853
[mk-app] #12888 not #12873
[inst-discovered] theory-solving 0x0 basic# ; #9714
[mk-app] #12891 = #9714 #12888
[instance] 0x0 #12891
[attach-enode] #12891 0
[end-of-instance]
[mk-app] #12891 not #12888
[inst-discovered] theory-solving 0x0 basic# ; #12891
[mk-app] #12892 = #12891 #12873
[instance] 0x0 #12892
[attach-enode] #12892 0
[end-of-instance]
[mk-app] #12891 or #11744 #4044 #3188 #10314 #12853 #9808
[mk-app] #12892 or #12873 #9808
[inst-discovered] theory-solving 0x0 basic# ; #12892
[mk-app] #12893 = #12892 #12891
[instance] 0x0 #12893
[attach-enode] #12893 0
[end-of-instance]
[mk-quant] #12892 internal_alloc__vec__partial_eq__impl&__6_trait_impl_definition 6 #9810 #12891
[attach-var-names] #12892 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12873 or #3188 #12854
[mk-app] #12888 not #12873
[inst-discovered] theory-solving 0x0 basic# ; #9760
[mk-app] #12893 = #9760 #12888
[instance] 0x0 #12893
[attach-enode] #12893 0
[end-of-instance]
[mk-app] #12893 not #12888
[inst-discovered] theory-solving 0x0 basic# ; #12893
[mk-app] #12894 = #12893 #12873
[instance] 0x0 #12894
[attach-enode] #12894 0
[end-of-instance]
[mk-app] #12893 or #3188 #12854 #9814
[mk-app] #12894 or #12873 #9814
[inst-discovered] theory-solving 0x0 basic# ; #12894
[mk-app] #12895 = #12894 #12893
[instance] 0x0 #12895
[attach-enode] #12895 0
[end-of-instance]
[mk-quant] #12894 internal_core__option__impl&__17_trait_impl_definition 2 #9816 #12893
[attach-var-names] #12894 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12873 not #9820
[mk-app] #12888 or #4044 #3188 #12873 #12854
[mk-app] #12895 not #12888
[inst-discovered] theory-solving 0x0 basic# ; #9821
[mk-app] #12896 = #9821 #12895
[instance] 0x0 #12896
[attach-enode] #12896 0
[end-of-instance]
[mk-app] #12896 not #12895
[inst-discovered] theory-solving 0x0 basic# ; #12896
[mk-app] #12897 = #12896 #12888
[instance] 0x0 #12897
[attach-enode] #12897 0
[end-of-instance]
[mk-app] #12896 or #4044 #3188 #12873 #12854 #9822
[mk-app] #12897 or #12888 #9822
[inst-discovered] theory-solving 0x0 basic# ; #12897
[mk-app] #12898 = #12897 #12896
[instance] 0x0 #12898
[attach-enode] #12898 0
[end-of-instance]
[mk-quant] #12897 internal_core__result__impl&__34_trait_impl_definition 4 #9824 #12896
[attach-var-names] #12897 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12888 or #3188 #12854
[mk-app] #12895 not #12888
[inst-discovered] theory-solving 0x0 basic# ; #9760
[mk-app] #12898 = #9760 #12895
[instance] 0x0 #12898
[attach-enode] #12898 0
[end-of-instance]
[mk-app] #12898 not #12895
[inst-discovered] theory-solving 0x0 basic# ; #12898
[mk-app] #12899 = #12898 #12888
[instance] 0x0 #12899
[attach-enode] #12899 0
[end-of-instance]
[mk-app] #12898 or #3188 #12854 #9829
[mk-app] #12899 or #12888 #9829
[inst-discovered] theory-solving 0x0 basic# ; #12899
[mk-app] #12900 = #12899 #12898
[instance] 0x0 #12900
[attach-enode] #12900 0
[end-of-instance]
[mk-quant] #12899 internal_core__tuple__impl&__0_trait_impl_definition 2 #9831 #12898
[attach-var-names] #12899 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12888 or #4044 #3188 #12873 #12854
[mk-app] #12895 not #12888
[inst-discovered] theory-solving 0x0 basic# ; #9821
[mk-app] #12900 = #9821 #12895
[instance] 0x0 #12900
[attach-enode] #12900 0
[end-of-instance]
[mk-app] #12900 not #12895
[inst-discovered] theory-solving 0x0 basic# ; #12900
[mk-app] #12901 = #12900 #12888
[instance] 0x0 #12901
[attach-enode] #12901 0
[end-of-instance]
[mk-app] #12900 or #4044 #3188 #12873 #12854 #9835
[mk-app] #12901 or #12888 #9835
[inst-discovered] theory-solving 0x0 basic# ; #12901
[mk-app] #12902 = #12901 #12900
[instance] 0x0 #12902
[attach-enode] #12902 0
[end-of-instance]
[mk-quant] #12901 internal_core__tuple__impl&__10_trait_impl_definition 4 #9837 #12900
[attach-var-names] #12901 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|)
[mk-app] #12888 or #3188 #12873 #10314
[mk-app] #12895 not #12888
[inst-discovered] theory-solving 0x0 basic# ; #9841
[mk-app] #12902 = #9841 #12895
[instance] 0x0 #12902
[attach-enode] #12902 0
[end-of-instance]
[mk-app] #12902 not #12895
[inst-discovered] theory-solving 0x0 basic# ; #12902
[mk-app] #12903 = #12902 #12888
[instance] 0x0 #12903
[attach-enode] #12903 0
[end-of-instance]
[mk-app] #12902 or #3188 #12873 #10314 #9842
[mk-app] #12903 or #12888 #9842
[inst-discovered] theory-solving 0x0 basic# ; #12903
[mk-app] #12904 = #12903 #12902
[instance] 0x0 #12904
[attach-enode] #12904 0
[end-of-instance]
[mk-quant] #12903 internal_alloc__boxed__impl&__18_trait_impl_definition 4 #9844 #12902
[attach-var-names] #12903 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12888 not #9850
[mk-app] #12895 not #9851
[mk-app] #12904 or #12888 #11744 #4044 #3188 #12327 #10314 #12895
[mk-app] #12905 not #12904
[inst-discovered] theory-solving 0x0 basic# ; #9852
[mk-app] #12906 = #9852 #12905
[instance] 0x0 #12906
[attach-enode] #12906 0
[end-of-instance]
[mk-app] #12906 not #12905
[inst-discovered] theory-solving 0x0 basic# ; #12906
[mk-app] #12907 = #12906 #12904
[instance] 0x0 #12907
[attach-enode] #12907 0
[end-of-instance]
[mk-app] #12906 or #12888 #11744 #4044 #3188 #12327 #10314 #12895 #9855
[mk-app] #12907 or #12904 #9855
[inst-discovered] theory-solving 0x0 basic# ; #12907
[mk-app] #12908 = #12907 #12906
[instance] 0x0 #12908
[attach-enode] #12908 0
[end-of-instance]
[mk-quant] #12907 internal_alloc__vec__partial_eq__impl&__0_trait_impl_definition 8 #9857 #12906
[attach-var-names] #12907 (|A2&| ; |Type|) (|A2&.| ; |Dcr|) (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12904 or #11744 #4044 #3188 #10314 #12853
[mk-app] #12905 not #12904
[inst-discovered] theory-solving 0x0 basic# ; #9714
[mk-app] #12908 = #9714 #12905
[instance] 0x0 #12908
[attach-enode] #12908 0
[end-of-instance]
[mk-app] #12908 not #12905
[inst-discovered] theory-solving 0x0 basic# ; #12908
[mk-app] #12909 = #12908 #12904
[instance] 0x0 #12909
[attach-enode] #12909 0
[end-of-instance]
[mk-app] #12908 or #11744 #4044 #3188 #10314 #12853 #9862
[mk-app] #12909 or #12904 #9862
[inst-discovered] theory-solving 0x0 basic# ; #12909
[mk-app] #12910 = #12909 #12908
[instance] 0x0 #12910
[attach-enode] #12910 0
[end-of-instance]
[mk-quant] #12909 internal_alloc__vec__partial_eq__impl&__1_trait_impl_definition 6 #9864 #12908
[attach-var-names] #12909 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12904 or #11744 #4044 #3188 #10314 #12853
[mk-app] #12905 not #12904
[inst-discovered] theory-solving 0x0 basic# ; #9714
[mk-app] #12910 = #9714 #12905
[instance] 0x0 #12910
[attach-enode] #12910 0
[end-of-instance]
[mk-app] #12910 not #12905
[inst-discovered] theory-solving 0x0 basic# ; #12910
[mk-app] #12911 = #12910 #12904
[instance] 0x0 #12911
[attach-enode] #12911 0
[end-of-instance]
[mk-app] #12910 or #11744 #4044 #3188 #10314 #12853 #9868
[mk-app] #12911 or #12904 #9868
[inst-discovered] theory-solving 0x0 basic# ; #12911
[mk-app] #12912 = #12911 #12910
[instance] 0x0 #12912
[attach-enode] #12912 0
[end-of-instance]
[mk-quant] #12911 internal_alloc__vec__partial_eq__impl&__2_trait_impl_definition 6 #9870 #12910
[attach-var-names] #12911 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12904 or #11744 #4044 #3188 #10314 #12853
[mk-app] #12905 not #12904
[inst-discovered] theory-solving 0x0 basic# ; #9714
[mk-app] #12912 = #9714 #12905
[instance] 0x0 #12912
[attach-enode] #12912 0
[end-of-instance]
[mk-app] #12912 not #12905
[inst-discovered] theory-solving 0x0 basic# ; #12912
[mk-app] #12913 = #12912 #12904
[instance] 0x0 #12913
[attach-enode] #12913 0
[end-of-instance]
[mk-app] #12912 or #11744 #4044 #3188 #10314 #12853 #9874
[mk-app] #12913 or #12904 #9874
[inst-discovered] theory-solving 0x0 basic# ; #12913
[mk-app] #12914 = #12913 #12912
[instance] 0x0 #12914
[attach-enode] #12914 0
[end-of-instance]
[mk-quant] #12913 internal_alloc__vec__partial_eq__impl&__5_trait_impl_definition 6 #9876 #12912
[attach-var-names] #12913 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12904 or #12888 #11744 #4044 #11716 #12327 #12895
[mk-app] #12905 not #12904
[inst-discovered] theory-solving 0x0 basic# ; #9710
[mk-app] #12914 = #9710 #12905
[instance] 0x0 #12914
[attach-enode] #12914 0
[end-of-instance]
[mk-app] #12914 not #12905
[inst-discovered] theory-solving 0x0 basic# ; #12914
[mk-app] #12915 = #12914 #12904
[instance] 0x0 #12915
[attach-enode] #12915 0
[end-of-instance]
[mk-app] #12905 or #12888 #11744 #4044 #11716 #12327 #12895 #9881
[mk-app] #12914 or #12904 #9881
[inst-discovered] theory-solving 0x0 basic# ; #12914
[mk-app] #12915 = #12914 #12905
[instance] 0x0 #12915
[attach-enode] #12915 0
[end-of-instance]
[mk-quant] #12914 internal_alloc__vec__partial_eq__impl&__10_trait_impl_definition 8 #9883 #12905
[attach-var-names] #12914 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12904 or #12888 #11744 #4044 #11716 #12327 #12895
[mk-app] #12915 not #12904
[inst-discovered] theory-solving 0x0 basic# ; #9710
[mk-app] #12916 = #9710 #12915
[instance] 0x0 #12916
[attach-enode] #12916 0
[end-of-instance]
[mk-app] #12916 not #12915
[inst-discovered] theory-solving 0x0 basic# ; #12916
[mk-app] #12917 = #12916 #12904
[instance] 0x0 #12917
[attach-enode] #12917 0
[end-of-instance]
[mk-app] #12915 or #12888 #11744 #4044 #11716 #12327 #12895 #9888
[mk-app] #12916 or #12904 #9888
[inst-discovered] theory-solving 0x0 basic# ; #12916
[mk-app] #12917 = #12916 #12915
[instance] 0x0 #12917
[attach-enode] #12917 0
[end-of-instance]
[mk-quant] #12916 internal_alloc__vec__partial_eq__impl&__11_trait_impl_definition 8 #9890 #12915
[attach-var-names] #12916 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12904 or #3188 #12873 #10314
[mk-app] #12917 not #12904
[inst-discovered] theory-solving 0x0 basic# ; #9841
[mk-app] #12918 = #9841 #12917
[instance] 0x0 #12918
[attach-enode] #12918 0
[end-of-instance]
[mk-app] #12918 not #12917
[inst-discovered] theory-solving 0x0 basic# ; #12918
[mk-app] #12919 = #12918 #12904
[instance] 0x0 #12919
[attach-enode] #12919 0
[end-of-instance]
[mk-app] #12918 or #3188 #12873 #10314 #9894
[mk-app] #12919 or #12904 #9894
[inst-discovered] theory-solving 0x0 basic# ; #12919
[mk-app] #12920 = #12919 #12918
[instance] 0x0 #12920
[attach-enode] #12920 0
[end-of-instance]
[mk-quant] #12919 internal_alloc__rc__impl&__45_trait_impl_definition 4 #9896 #12918
[attach-var-names] #12919 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12904 or #3188 #12873 #10314
[mk-app] #12917 not #12904
[inst-discovered] theory-solving 0x0 basic# ; #9841
[mk-app] #12920 = #9841 #12917
[instance] 0x0 #12920
[attach-enode] #12920 0
[end-of-instance]
[mk-app] #12920 not #12917
[inst-discovered] theory-solving 0x0 basic# ; #12920
[mk-app] #12921 = #12920 #12904
[instance] 0x0 #12921
[attach-enode] #12921 0
[end-of-instance]
[mk-app] #12920 or #3188 #12873 #10314 #9900
[mk-app] #12921 or #12904 #9900
[inst-discovered] theory-solving 0x0 basic# ; #12921
[mk-app] #12922 = #12921 #12920
[instance] 0x0 #12922
[attach-enode] #12922 0
[end-of-instance]
[mk-quant] #12921 internal_alloc__sync__impl&__55_trait_impl_definition 4 #9902 #12920
[attach-var-names] #12921 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12904 not #9929
[mk-app] #12917 or #4044 #11716 #12904
[mk-app] #12922 not #12917
[inst-discovered] theory-solving 0x0 basic# ; #9885
[mk-app] #12923 = #9885 #12922
[instance] 0x0 #12923
[attach-enode] #12923 0
[end-of-instance]
[mk-app] #12923 not #12922
[inst-discovered] theory-solving 0x0 basic# ; #12923
[mk-app] #12924 = #12923 #12917
[instance] 0x0 #12924
[attach-enode] #12924 0
[end-of-instance]
[mk-app] #12922 or #4044 #11716 #12904 #9931
[mk-app] #12923 or #12917 #9931
[inst-discovered] theory-solving 0x0 basic# ; #12923
[mk-app] #12924 = #12923 #12922
[instance] 0x0 #12924
[attach-enode] #12924 0
[end-of-instance]
[mk-quant] #12917 internal_core__array__impl&__17_trait_impl_definition 4 #9933 #12922
[attach-var-names] #12917 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12923 or #3188 #11699
[mk-app] #12924 not #12923
[inst-discovered] theory-solving 0x0 basic# ; #9938
[mk-app] #12925 = #9938 #12924
[instance] 0x0 #12925
[attach-enode] #12925 0
[end-of-instance]
[mk-app] #12925 not #12924
[inst-discovered] theory-solving 0x0 basic# ; #12925
[mk-app] #12926 = #12925 #12923
[instance] 0x0 #12926
[attach-enode] #12926 0
[end-of-instance]
[mk-app] #12925 or #3188 #11699 #9939
[mk-app] #12926 or #12923 #9939
[inst-discovered] theory-solving 0x0 basic# ; #12926
[mk-app] #12927 = #12926 #12925
[instance] 0x0 #12927
[attach-enode] #12927 0
[end-of-instance]
[mk-quant] #12926 internal_core__option__impl&__18_trait_impl_definition 2 #9941 #12925
[attach-var-names] #12926 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12923 or #4044 #3188 #12904 #11699
[mk-app] #12924 not #12923
[inst-discovered] theory-solving 0x0 basic# ; #9946
[mk-app] #12927 = #9946 #12924
[instance] 0x0 #12927
[attach-enode] #12927 0
[end-of-instance]
[mk-app] #12927 not #12924
[inst-discovered] theory-solving 0x0 basic# ; #12927
[mk-app] #12928 = #12927 #12923
[instance] 0x0 #12928
[attach-enode] #12928 0
[end-of-instance]
[mk-app] #12927 or #4044 #3188 #12904 #11699 #9947
[mk-app] #12928 or #12923 #9947
[inst-discovered] theory-solving 0x0 basic# ; #12928
[mk-app] #12929 = #12928 #12927
[instance] 0x0 #12929
[attach-enode] #12929 0
[end-of-instance]
[mk-quant] #12928 internal_core__result__impl&__35_trait_impl_definition 4 #9949 #12927
[attach-var-names] #12928 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12923 or #3188 #11699
[mk-app] #12924 not #12923
[inst-discovered] theory-solving 0x0 basic# ; #9938
[mk-app] #12929 = #9938 #12924
[instance] 0x0 #12929
[attach-enode] #12929 0
[end-of-instance]
[mk-app] #12929 not #12924
[inst-discovered] theory-solving 0x0 basic# ; #12929
[mk-app] #12930 = #12929 #12923
[instance] 0x0 #12930
[attach-enode] #12930 0
[end-of-instance]
[mk-app] #12929 or #3188 #11699 #9954
[mk-app] #12930 or #12923 #9954
[inst-discovered] theory-solving 0x0 basic# ; #12930
[mk-app] #12931 = #12930 #12929
[instance] 0x0 #12931
[attach-enode] #12931 0
[end-of-instance]
[mk-quant] #12930 internal_core__slice__cmp__impl&__3_trait_impl_definition 2 #9956 #12929
[attach-var-names] #12930 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12923 or #3188 #11699
[mk-app] #12924 not #12923
[inst-discovered] theory-solving 0x0 basic# ; #9938
[mk-app] #12931 = #9938 #12924
[instance] 0x0 #12931
[attach-enode] #12931 0
[end-of-instance]
[mk-app] #12931 not #12924
[inst-discovered] theory-solving 0x0 basic# ; #12931
[mk-app] #12932 = #12931 #12923
[instance] 0x0 #12932
[attach-enode] #12932 0
[end-of-instance]
[mk-app] #12931 or #3188 #11699 #9961
[mk-app] #12932 or #12923 #9961
[inst-discovered] theory-solving 0x0 basic# ; #12932
[mk-app] #12933 = #12932 #12931
[instance] 0x0 #12933
[attach-enode] #12933 0
[end-of-instance]
[mk-quant] #12932 internal_core__tuple__impl&__4_trait_impl_definition 2 #9963 #12931
[attach-var-names] #12932 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12923 or #4044 #3188 #12904 #11699
[mk-app] #12924 not #12923
[inst-discovered] theory-solving 0x0 basic# ; #9946
[mk-app] #12933 = #9946 #12924
[instance] 0x0 #12933
[attach-enode] #12933 0
[end-of-instance]
[mk-app] #12933 not #12924
[inst-discovered] theory-solving 0x0 basic# ; #12933
[mk-app] #12934 = #12933 #12923
[instance] 0x0 #12934
[attach-enode] #12934 0
[end-of-instance]
[mk-app] #12933 or #4044 #3188 #12904 #11699 #9967
[mk-app] #12934 or #12923 #9967
[inst-discovered] theory-solving 0x0 basic# ; #12934
[mk-app] #12935 = #12934 #12933
[instance] 0x0 #12935
[attach-enode] #12935 0
[end-of-instance]
[mk-quant] #12934 internal_core__tuple__impl&__14_trait_impl_definition 4 #9969 #12933
[attach-var-names] #12934 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|)
[mk-app] #12923 or #3188 #12904 #10314
[mk-app] #12924 not #12923
[inst-discovered] theory-solving 0x0 basic# ; #9973
[mk-app] #12935 = #9973 #12924
[instance] 0x0 #12935
[attach-enode] #12935 0
[end-of-instance]
[mk-app] #12935 not #12924
[inst-discovered] theory-solving 0x0 basic# ; #12935
[mk-app] #12936 = #12935 #12923
[instance] 0x0 #12936
[attach-enode] #12936 0
[end-of-instance]
[mk-app] #12935 or #3188 #12904 #10314 #9974
[mk-app] #12936 or #12923 #9974
[inst-discovered] theory-solving 0x0 basic# ; #12936
[mk-app] #12937 = #12936 #12935
[instance] 0x0 #12937
[attach-enode] #12937 0
[end-of-instance]
[mk-quant] #12936 internal_alloc__boxed__impl&__19_trait_impl_definition 4 #9976 #12935
[attach-var-names] #12936 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12923 or #3188 #12904 #10314
[mk-app] #12924 not #12923
[inst-discovered] theory-solving 0x0 basic# ; #9973
[mk-app] #12937 = #9973 #12924
[instance] 0x0 #12937
[attach-enode] #12937 0
[end-of-instance]
[mk-app] #12937 not #12924
[inst-discovered] theory-solving 0x0 basic# ; #12937
[mk-app] #12938 = #12937 #12923
[instance] 0x0 #12938
[attach-enode] #12938 0
[end-of-instance]
[mk-app] #12937 or #3188 #12904 #10314 #9981
[mk-app] #12938 or #12923 #9981
[inst-discovered] theory-solving 0x0 basic# ; #12938
[mk-app] #12939 = #12938 #12937
[instance] 0x0 #12939
[attach-enode] #12939 0
[end-of-instance]
[mk-quant] #12938 internal_alloc__rc__impl&__47_trait_impl_definition 4 #9983 #12937
[attach-var-names] #12938 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12923 or #3188 #12904 #10314
[mk-app] #12924 not #12923
[inst-discovered] theory-solving 0x0 basic# ; #9973
[mk-app] #12939 = #9973 #12924
[instance] 0x0 #12939
[attach-enode] #12939 0
[end-of-instance]
[mk-app] #12939 not #12924
[inst-discovered] theory-solving 0x0 basic# ; #12939
[mk-app] #12940 = #12939 #12923
[instance] 0x0 #12940
[attach-enode] #12940 0
[end-of-instance]
[mk-app] #12939 or #3188 #12904 #10314 #9988
[mk-app] #12940 or #12923 #9988
[inst-discovered] theory-solving 0x0 basic# ; #12940
[mk-app] #12941 = #12940 #12939
[instance] 0x0 #12941
[attach-enode] #12941 0
[end-of-instance]
[mk-quant] #12940 internal_alloc__sync__impl&__56_trait_impl_definition 4 #9990 #12939
[attach-var-names] #12940 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12923 not #9994
[mk-app] #12924 or #11744 #4044 #3188 #12923 #12327 #10314
[mk-app] #12941 not #12924
[inst-discovered] theory-solving 0x0 basic# ; #9995
[mk-app] #12942 = #9995 #12941
[instance] 0x0 #12942
[attach-enode] #12942 0
[end-of-instance]
[mk-app] #12942 not #12941
[inst-discovered] theory-solving 0x0 basic# ; #12942
[mk-app] #12943 = #12942 #12924
[instance] 0x0 #12943
[attach-enode] #12943 0
[end-of-instance]
[mk-app] #12942 or #11744 #4044 #3188 #12923 #12327 #10314 #9996
[mk-app] #12943 or #12924 #9996
[inst-discovered] theory-solving 0x0 basic# ; #12943
[mk-app] #12944 = #12943 #12942
[instance] 0x0 #12944
[attach-enode] #12944 0
[end-of-instance]
[mk-quant] #12943 internal_alloc__vec__impl&__23_trait_impl_definition 6 #9998 #12942
[attach-var-names] #12943 (|A2&| ; |Type|) (|A2&.| ; |Dcr|) (|A1&| ; |Type|) (|A1&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12924 or #4044 #11716 #12143
[mk-app] #12941 not #12924
[inst-discovered] theory-solving 0x0 basic# ; #9935
[mk-app] #12944 = #9935 #12941
[instance] 0x0 #12944
[attach-enode] #12944 0
[end-of-instance]
[mk-app] #12944 not #12941
[inst-discovered] theory-solving 0x0 basic# ; #12944
[mk-app] #12945 = #12944 #12924
[instance] 0x0 #12945
[attach-enode] #12945 0
[end-of-instance]
[mk-app] #12941 or #4044 #11716 #12143 #10021
[mk-app] #12944 or #12924 #10021
[inst-discovered] theory-solving 0x0 basic# ; #12944
[mk-app] #12945 = #12944 #12941
[instance] 0x0 #12945
[attach-enode] #12945 0
[end-of-instance]
[mk-quant] #12924 internal_core__array__impl&__19_trait_impl_definition 4 #10023 #12941
[attach-var-names] #12924 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12944 or #3188 #2996
[mk-app] #12945 not #12944
[inst-discovered] theory-solving 0x0 basic# ; #9610
[mk-app] #12946 = #9610 #12945
[instance] 0x0 #12946
[attach-enode] #12946 0
[end-of-instance]
[mk-app] #12946 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #12946
[mk-app] #12947 = #12946 #12944
[instance] 0x0 #12947
[attach-enode] #12947 0
[end-of-instance]
[mk-app] #12946 or #3188 #2996 #10028
[mk-app] #12947 or #12944 #10028
[inst-discovered] theory-solving 0x0 basic# ; #12947
[mk-app] #12948 = #12947 #12946
[instance] 0x0 #12948
[attach-enode] #12948 0
[end-of-instance]
[mk-quant] #12947 internal_core__option__impl&__6_trait_impl_definition 2 #10030 #12946
[attach-var-names] #12947 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12944 or #3188 #3003
[mk-app] #12945 not #12944
[inst-discovered] theory-solving 0x0 basic# ; #9677
[mk-app] #12948 = #9677 #12945
[instance] 0x0 #12948
[attach-enode] #12948 0
[end-of-instance]
[mk-app] #12948 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #12948
[mk-app] #12949 = #12948 #12944
[instance] 0x0 #12949
[attach-enode] #12949 0
[end-of-instance]
[mk-app] #12948 or #3188 #3003 #10034
[mk-app] #12949 or #12944 #10034
[inst-discovered] theory-solving 0x0 basic# ; #12949
[mk-app] #12950 = #12949 #12948
[instance] 0x0 #12950
[attach-enode] #12950 0
[end-of-instance]
[mk-quant] #12949 internal_core__option__impl&__54_trait_impl_definition 2 #10036 #12948
[attach-var-names] #12949 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12944 or #4044 #3188 #12143 #3003
[mk-app] #12945 not #12944
[inst-discovered] theory-solving 0x0 basic# ; #10040
[mk-app] #12950 = #10040 #12945
[instance] 0x0 #12950
[attach-enode] #12950 0
[end-of-instance]
[mk-app] #12950 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #12950
[mk-app] #12951 = #12950 #12944
[instance] 0x0 #12951
[attach-enode] #12951 0
[end-of-instance]
[mk-app] #12950 or #4044 #3188 #12143 #3003 #10041
[mk-app] #12951 or #12944 #10041
[inst-discovered] theory-solving 0x0 basic# ; #12951
[mk-app] #12952 = #12951 #12950
[instance] 0x0 #12952
[attach-enode] #12952 0
[end-of-instance]
[mk-quant] #12951 internal_core__result__impl&__30_trait_impl_definition 4 #10043 #12950
[attach-var-names] #12951 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12944 or #3188 #3003
[mk-app] #12945 not #12944
[inst-discovered] theory-solving 0x0 basic# ; #9677
[mk-app] #12952 = #9677 #12945
[instance] 0x0 #12952
[attach-enode] #12952 0
[end-of-instance]
[mk-app] #12952 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #12952
[mk-app] #12953 = #12952 #12944
[instance] 0x0 #12953
[attach-enode] #12953 0
[end-of-instance]
[mk-app] #12952 or #3188 #3003 #10055
[mk-app] #12953 or #12944 #10055
[inst-discovered] theory-solving 0x0 basic# ; #12953
[mk-app] #12954 = #12953 #12952
[instance] 0x0 #12954
[attach-enode] #12954 0
[end-of-instance]
[mk-quant] #12953 internal_verus_builtin__impl&__10_trait_impl_definition 2 #10057 #12952
[attach-var-names] #12953 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12944 or #4044 #11717 #11722
[mk-app] #12945 not #12944
[inst-discovered] theory-solving 0x0 basic# ; #3368
[mk-app] #12954 = #3368 #12945
[instance] 0x0 #12954
[attach-enode] #12954 0
[end-of-instance]
[mk-app] #12954 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #12954
[mk-app] #12955 = #12954 #12944
[instance] 0x0 #12955
[attach-enode] #12955 0
[end-of-instance]
[mk-app] #12954 or #4044 #11717 #11722 #10063
[mk-app] #12955 or #12944 #10063
[inst-discovered] theory-solving 0x0 basic# ; #12955
[mk-app] #12956 = #12955 #12954
[instance] 0x0 #12956
[attach-enode] #12956 0
[end-of-instance]
[mk-quant] #12955 internal_core__ops__function__impls__impl&__2_trait_impl_definition 4 #10065 #12954
[attach-var-names] #12955 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12944 or #4044 #11717 #11722
[mk-app] #12945 not #12944
[inst-discovered] theory-solving 0x0 basic# ; #3368
[mk-app] #12956 = #3368 #12945
[instance] 0x0 #12956
[attach-enode] #12956 0
[end-of-instance]
[mk-app] #12956 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #12956
[mk-app] #12957 = #12956 #12944
[instance] 0x0 #12957
[attach-enode] #12957 0
[end-of-instance]
[mk-app] #12956 or #4044 #11717 #11722 #10069
[mk-app] #12957 or #12944 #10069
[inst-discovered] theory-solving 0x0 basic# ; #12957
[mk-app] #12958 = #12957 #12956
[instance] 0x0 #12958
[attach-enode] #12958 0
[end-of-instance]
[mk-quant] #12957 internal_core__ops__function__impls__impl&__1_trait_impl_definition 4 #10071 #12956
[attach-var-names] #12957 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12944 or #4044 #11717 #11722
[mk-app] #12945 not #12944
[inst-discovered] theory-solving 0x0 basic# ; #3368
[mk-app] #12958 = #3368 #12945
[instance] 0x0 #12958
[attach-enode] #12958 0
[end-of-instance]
[mk-app] #12958 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #12958
[mk-app] #12959 = #12958 #12944
[instance] 0x0 #12959
[attach-enode] #12959 0
[end-of-instance]
[mk-app] #12958 or #4044 #11717 #11722 #10075
[mk-app] #12959 or #12944 #10075
[inst-discovered] theory-solving 0x0 basic# ; #12959
[mk-app] #12960 = #12959 #12958
[instance] 0x0 #12960
[attach-enode] #12960 0
[end-of-instance]
[mk-quant] #12959 internal_core__ops__function__impls__impl&__0_trait_impl_definition 4 #10077 #12958
[attach-var-names] #12959 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12944 or #11744 #3188 #11749 #11754 #10314
[mk-app] #12945 not #12944
[inst-discovered] theory-solving 0x0 basic# ; #3406
[mk-app] #12960 = #3406 #12945
[instance] 0x0 #12960
[attach-enode] #12960 0
[end-of-instance]
[mk-app] #12960 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #12960
[mk-app] #12961 = #12960 #12944
[instance] 0x0 #12961
[attach-enode] #12961 0
[end-of-instance]
[mk-app] #12960 or #11744 #3188 #11749 #11754 #10314 #10081
[mk-app] #12961 or #12944 #10081
[inst-discovered] theory-solving 0x0 basic# ; #12961
[mk-app] #12962 = #12961 #12960
[instance] 0x0 #12962
[attach-enode] #12962 0
[end-of-instance]
[mk-quant] #12961 internal_alloc__boxed__impl&__31_trait_impl_definition 6 #10083 #12960
[attach-var-names] #12961 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #12944 or #11744 #3188 #11749 #11991 #10314
[mk-app] #12945 not #12944
[inst-discovered] theory-solving 0x0 basic# ; #10087
[mk-app] #12962 = #10087 #12945
[instance] 0x0 #12962
[attach-enode] #12962 0
[end-of-instance]
[mk-app] #12962 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #12962
[mk-app] #12963 = #12962 #12944
[instance] 0x0 #12963
[attach-enode] #12963 0
[end-of-instance]
[mk-app] #12962 or #11744 #3188 #11749 #11991 #10314 #10088
[mk-app] #12963 or #12944 #10088
[inst-discovered] theory-solving 0x0 basic# ; #12963
[mk-app] #12964 = #12963 #12962
[instance] 0x0 #12964
[attach-enode] #12964 0
[end-of-instance]
[mk-quant] #12963 internal_alloc__boxed__impl&__32_trait_impl_definition 6 #10090 #12962
[attach-var-names] #12963 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #12944 not #10095
[mk-app] #12945 or #11744 #3188 #11749 #12944 #10314
[mk-app] #12964 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #10096
[mk-app] #12965 = #10096 #12964
[instance] 0x0 #12965
[attach-enode] #12965 0
[end-of-instance]
[mk-app] #12965 not #12964
[inst-discovered] theory-solving 0x0 basic# ; #12965
[mk-app] #12966 = #12965 #12945
[instance] 0x0 #12966
[attach-enode] #12966 0
[end-of-instance]
[mk-app] #12965 or #11744 #3188 #11749 #12944 #10314 #10097
[mk-app] #12966 or #12945 #10097
[inst-discovered] theory-solving 0x0 basic# ; #12966
[mk-app] #12967 = #12966 #12965
[instance] 0x0 #12967
[attach-enode] #12967 0
[end-of-instance]
[mk-quant] #12966 internal_alloc__boxed__impl&__33_trait_impl_definition 6 #10099 #12965
[attach-var-names] #12966 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|F&| ; |Type|) (|F&.| ; |Dcr|) (|Args&| ; |Type|) (|Args&.| ; |Dcr|)
[mk-app] #12945 or #4044 #11717 #11743
[mk-app] #12964 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #3387
[mk-app] #12967 = #3387 #12964
[instance] 0x0 #12967
[attach-enode] #12967 0
[end-of-instance]
[mk-app] #12967 not #12964
[inst-discovered] theory-solving 0x0 basic# ; #12967
[mk-app] #12968 = #12967 #12945
[instance] 0x0 #12968
[attach-enode] #12968 0
[end-of-instance]
[mk-app] #12967 or #4044 #11717 #11743 #10104
[mk-app] #12968 or #12945 #10104
[inst-discovered] theory-solving 0x0 basic# ; #12968
[mk-app] #12969 = #12968 #12967
[instance] 0x0 #12969
[attach-enode] #12969 0
[end-of-instance]
[mk-quant] #12968 internal_core__ops__function__impls__impl&__3_trait_impl_definition 4 #10106 #12967
[attach-var-names] #12968 (|F&| ; |Type|) (|F&.| ; |Dcr|) (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12945 or #3188 #3057
[mk-app] #12964 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #3425
[mk-app] #12969 = #3425 #12964
[instance] 0x0 #12969
[attach-enode] #12969 0
[end-of-instance]
[mk-app] #12969 not #12964
[inst-discovered] theory-solving 0x0 basic# ; #12969
[mk-app] #12970 = #12969 #12945
[instance] 0x0 #12970
[attach-enode] #12970 0
[end-of-instance]
[mk-app] #12969 or #3188 #3057 #3060
[mk-app] #12970 or #12945 #3060
[inst-discovered] theory-solving 0x0 basic# ; #12970
[mk-app] #12971 = #12970 #12969
[instance] 0x0 #12971
[attach-enode] #12971 0
[end-of-instance]
[mk-quant] #12970 internal_core__iter__traits__collect__impl&__0_trait_impl_definition 2 #3075 #12969
[attach-var-names] #12970 (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12945 or #4044 #11716
[mk-app] #12964 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #12971 = #2612 #12964
[instance] 0x0 #12971
[attach-enode] #12971 0
[end-of-instance]
[mk-app] #12971 not #12964
[inst-discovered] theory-solving 0x0 basic# ; #12971
[mk-app] #12972 = #12971 #12945
[instance] 0x0 #12972
[attach-enode] #12972 0
[end-of-instance]
[mk-app] #12964 or #4044 #11716 #10115
[mk-app] #12971 or #12945 #10115
[inst-discovered] theory-solving 0x0 basic# ; #12971
[mk-app] #12972 = #12971 #12964
[instance] 0x0 #12972
[attach-enode] #12972 0
[end-of-instance]
[mk-quant] #12971 internal_core__array__impl&__13_trait_impl_definition 4 #10117 #12964
[attach-var-names] #12971 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12945 or #4044 #3188 #10314
[mk-app] #12972 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #12973 = #3269 #12972
[instance] 0x0 #12973
[attach-enode] #12973 0
[end-of-instance]
[mk-app] #12973 not #12972
[inst-discovered] theory-solving 0x0 basic# ; #12973
[mk-app] #12974 = #12973 #12945
[instance] 0x0 #12974
[attach-enode] #12974 0
[end-of-instance]
[mk-app] #12973 or #4044 #3188 #10314 #10127
[mk-app] #12974 or #12945 #10127
[inst-discovered] theory-solving 0x0 basic# ; #12974
[mk-app] #12975 = #12974 #12973
[instance] 0x0 #12975
[attach-enode] #12975 0
[end-of-instance]
[mk-quant] #12974 internal_alloc__boxed__iter__impl&__11_trait_impl_definition 4 #10129 #12973
[attach-var-names] #12974 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12945 or #4044 #3188 #10314
[mk-app] #12972 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #12975 = #3269 #12972
[instance] 0x0 #12975
[attach-enode] #12975 0
[end-of-instance]
[mk-app] #12975 not #12972
[inst-discovered] theory-solving 0x0 basic# ; #12975
[mk-app] #12976 = #12975 #12945
[instance] 0x0 #12976
[attach-enode] #12976 0
[end-of-instance]
[mk-app] #12975 or #4044 #3188 #10314 #10133
[mk-app] #12976 or #12945 #10133
[inst-discovered] theory-solving 0x0 basic# ; #12976
[mk-app] #12977 = #12976 #12975
[instance] 0x0 #12977
[attach-enode] #12977 0
[end-of-instance]
[mk-quant] #12976 internal_alloc__vec__impl&__18_trait_impl_definition 4 #10135 #12975
[attach-var-names] #12976 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12945 or #4044 #11716
[mk-app] #12972 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #2612
[mk-app] #12977 = #2612 #12972
[instance] 0x0 #12977
[attach-enode] #12977 0
[end-of-instance]
[mk-app] #12977 not #12972
[inst-discovered] theory-solving 0x0 basic# ; #12977
[mk-app] #12978 = #12977 #12945
[instance] 0x0 #12978
[attach-enode] #12978 0
[end-of-instance]
[mk-app] #12972 or #4044 #11716 #10139
[mk-app] #12977 or #12945 #10139
[inst-discovered] theory-solving 0x0 basic# ; #12977
[mk-app] #12978 = #12977 #12972
[instance] 0x0 #12978
[attach-enode] #12978 0
[end-of-instance]
[mk-quant] #12977 internal_core__array__impl&__14_trait_impl_definition 4 #10141 #12972
[attach-var-names] #12977 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12945 or #4044 #3188 #10314
[mk-app] #12978 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #12979 = #3269 #12978
[instance] 0x0 #12979
[attach-enode] #12979 0
[end-of-instance]
[mk-app] #12979 not #12978
[inst-discovered] theory-solving 0x0 basic# ; #12979
[mk-app] #12980 = #12979 #12945
[instance] 0x0 #12980
[attach-enode] #12980 0
[end-of-instance]
[mk-app] #12979 or #4044 #3188 #10314 #10151
[mk-app] #12980 or #12945 #10151
[inst-discovered] theory-solving 0x0 basic# ; #12980
[mk-app] #12981 = #12980 #12979
[instance] 0x0 #12981
[attach-enode] #12981 0
[end-of-instance]
[mk-quant] #12980 internal_alloc__boxed__iter__impl&__12_trait_impl_definition 4 #10153 #12979
[attach-var-names] #12980 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12945 or #4044 #3188 #10314
[mk-app] #12978 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #12981 = #3269 #12978
[instance] 0x0 #12981
[attach-enode] #12981 0
[end-of-instance]
[mk-app] #12981 not #12978
[inst-discovered] theory-solving 0x0 basic# ; #12981
[mk-app] #12982 = #12981 #12945
[instance] 0x0 #12982
[attach-enode] #12982 0
[end-of-instance]
[mk-app] #12981 or #4044 #3188 #10314 #10157
[mk-app] #12982 or #12945 #10157
[inst-discovered] theory-solving 0x0 basic# ; #12982
[mk-app] #12983 = #12982 #12981
[instance] 0x0 #12983
[attach-enode] #12983 0
[end-of-instance]
[mk-quant] #12982 internal_alloc__vec__impl&__19_trait_impl_definition 4 #10159 #12981
[attach-var-names] #12982 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12945 or #4044 #3188 #10314
[mk-app] #12978 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #12983 = #3269 #12978
[instance] 0x0 #12983
[attach-enode] #12983 0
[end-of-instance]
[mk-app] #12983 not #12978
[inst-discovered] theory-solving 0x0 basic# ; #12983
[mk-app] #12984 = #12983 #12945
[instance] 0x0 #12984
[attach-enode] #12984 0
[end-of-instance]
[mk-app] #12983 or #4044 #3188 #10314 #10163
[mk-app] #12984 or #12945 #10163
[inst-discovered] theory-solving 0x0 basic# ; #12984
[mk-app] #12985 = #12984 #12983
[instance] 0x0 #12985
[attach-enode] #12985 0
[end-of-instance]
[mk-quant] #12984 internal_alloc__boxed__iter__impl&__10_trait_impl_definition 4 #10165 #12983
[attach-var-names] #12984 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12945 or #4044 #3188 #10314
[mk-app] #12978 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #3269
[mk-app] #12985 = #3269 #12978
[instance] 0x0 #12985
[attach-enode] #12985 0
[end-of-instance]
[mk-app] #12985 not #12978
[inst-discovered] theory-solving 0x0 basic# ; #12985
[mk-app] #12986 = #12985 #12945
[instance] 0x0 #12986
[attach-enode] #12986 0
[end-of-instance]
[mk-app] #12985 or #4044 #3188 #10314 #10169
[mk-app] #12986 or #12945 #10169
[inst-discovered] theory-solving 0x0 basic# ; #12986
[mk-app] #12987 = #12986 #12985
[instance] 0x0 #12987
[attach-enode] #12987 0
[end-of-instance]
[mk-quant] #12986 internal_alloc__vec__impl&__17_trait_impl_definition 4 #10171 #12985
[attach-var-names] #12986 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12945 or #3188 #11755 #10314
[mk-app] #12978 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #3808
[mk-app] #12987 = #3808 #12978
[instance] 0x0 #12987
[attach-enode] #12987 0
[end-of-instance]
[mk-app] #12987 not #12978
[inst-discovered] theory-solving 0x0 basic# ; #12987
[mk-app] #12988 = #12987 #12945
[instance] 0x0 #12988
[attach-enode] #12988 0
[end-of-instance]
[mk-app] #12987 or #3188 #11755 #10314 #10175
[mk-app] #12988 or #12945 #10175
[inst-discovered] theory-solving 0x0 basic# ; #12988
[mk-app] #12989 = #12988 #12987
[instance] 0x0 #12989
[attach-enode] #12989 0
[end-of-instance]
[mk-quant] #12988 internal_alloc__boxed__iter__impl&__0_trait_impl_definition 4 #10177 #12987
[attach-var-names] #12988 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|I&| ; |Type|) (|I&.| ; |Dcr|)
[mk-app] #12945 or #3188 #10220
[mk-app] #12978 not #12945
[inst-discovered] theory-solving 0x0 basic# ; #10181
[mk-app] #12989 = #10181 #12978
[instance] 0x0 #12989
[attach-enode] #12989 0
[end-of-instance]
[mk-app] #12989 not #12978
[inst-discovered] theory-solving 0x0 basic# ; #12989
[mk-app] #12990 = #12989 #12945
[instance] 0x0 #12990
[attach-enode] #12990 0
[end-of-instance]
[mk-app] #12989 or #3188 #10220 #10182
[mk-app] #12990 or #12945 #10182
[inst-discovered] theory-solving 0x0 basic# ; #12990
[mk-app] #12991 = #12990 #12989
[instance] 0x0 #12991
[attach-enode] #12991 0
[end-of-instance]
[mk-quant] #12990 internal_core__ops__range__impl&__1_trait_impl_definition 2 #10184 #12989
[attach-var-names] #12990 (|Idx&| ; |Type|) (|Idx&.| ; |Dcr|)
[mk-app] #12945 not #10189
[mk-app] #12978 or #4044 #11716 #12945
[mk-app] #12991 not #12978
[inst-discovered] theory-solving 0x0 basic# ; #3152
[mk-app] #12992 = #3152 #12991
[instance] 0x0 #12992
[attach-enode] #12992 0
[end-of-instance]
[mk-app] #12992 not #12991
[inst-discovered] theory-solving 0x0 basic# ; #12992
[mk-app] #12993 = #12992 #12978
[instance] 0x0 #12993
[attach-enode] #12993 0
[end-of-instance]
[mk-app] #12991 or #4044 #11716 #12945 #10191
[mk-app] #12992 or #12978 #10191
[inst-discovered] theory-solving 0x0 basic# ; #12992
[mk-app] #12993 = #12992 #12991
[instance] 0x0 #12993
[attach-enode] #12993 0
[end-of-instance]
[mk-quant] #12978 internal_core__array__impl&__12_trait_impl_definition 4 #10193 #12991
[attach-var-names] #12978 (|N&| ; |Type|) (|N&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #3188 #10220
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10181
[mk-app] #12994 = #10181 #12993
[instance] 0x0 #12994
[attach-enode] #12994 0
[end-of-instance]
[mk-app] #12994 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #12994
[mk-app] #12995 = #12994 #12992
[instance] 0x0 #12995
[attach-enode] #12995 0
[end-of-instance]
[mk-app] #12994 or #3188 #10220 #10198
[mk-app] #12995 or #12992 #10198
[inst-discovered] theory-solving 0x0 basic# ; #12995
[mk-app] #12996 = #12995 #12994
[instance] 0x0 #12996
[attach-enode] #12996 0
[end-of-instance]
[mk-quant] #12995 internal_core__option__impl&__55_trait_impl_definition 2 #10200 #12994
[attach-var-names] #12995 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #4044 #3188 #12945 #10220
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10204
[mk-app] #12996 = #10204 #12993
[instance] 0x0 #12996
[attach-enode] #12996 0
[end-of-instance]
[mk-app] #12996 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #12996
[mk-app] #12997 = #12996 #12992
[instance] 0x0 #12997
[attach-enode] #12997 0
[end-of-instance]
[mk-app] #12996 or #4044 #3188 #12945 #10220 #10205
[mk-app] #12997 or #12992 #10205
[inst-discovered] theory-solving 0x0 basic# ; #12997
[mk-app] #12998 = #12997 #12996
[instance] 0x0 #12998
[attach-enode] #12998 0
[end-of-instance]
[mk-quant] #12997 internal_core__result__impl&__31_trait_impl_definition 4 #10207 #12996
[attach-var-names] #12997 (|E&| ; |Type|) (|E&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #4044 #3188 #12945 #10220
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10204
[mk-app] #12998 = #10204 #12993
[instance] 0x0 #12998
[attach-enode] #12998 0
[end-of-instance]
[mk-app] #12998 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #12998
[mk-app] #12999 = #12998 #12992
[instance] 0x0 #12999
[attach-enode] #12999 0
[end-of-instance]
[mk-app] #12998 or #4044 #3188 #12945 #10220 #10238
[mk-app] #12999 or #12992 #10238
[inst-discovered] theory-solving 0x0 basic# ; #12999
[mk-app] #13000 = #12999 #12998
[instance] 0x0 #13000
[attach-enode] #13000 0
[end-of-instance]
[mk-quant] #12999 internal_core__fmt__impl&__106_trait_impl_definition 4 #10240 #12998
[attach-var-names] #12999 (|T&| ; |Type|) (|T&.| ; |Dcr|) (|U&| ; |Type|) (|U&.| ; |Dcr|)
[mk-app] #12992 or #3188 #10220
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10181
[mk-app] #13000 = #10181 #12993
[instance] 0x0 #13000
[attach-enode] #13000 0
[end-of-instance]
[mk-app] #13000 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13000
[mk-app] #13001 = #13000 #12992
[instance] 0x0 #13001
[attach-enode] #13001 0
[end-of-instance]
[mk-app] #13000 or #3188 #10220 #10244
[mk-app] #13001 or #12992 #10244
[inst-discovered] theory-solving 0x0 basic# ; #13001
[mk-app] #13002 = #13001 #13000
[instance] 0x0 #13002
[attach-enode] #13002 0
[end-of-instance]
[mk-quant] #13001 internal_core__fmt__impl&__107_trait_impl_definition 2 #10246 #13000
[attach-var-names] #13001 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #3188 #10220
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10181
[mk-app] #13002 = #10181 #12993
[instance] 0x0 #13002
[attach-enode] #13002 0
[end-of-instance]
[mk-app] #13002 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13002
[mk-app] #13003 = #13002 #12992
[instance] 0x0 #13003
[attach-enode] #13003 0
[end-of-instance]
[mk-app] #13002 or #3188 #10220 #10250
[mk-app] #13003 or #12992 #10250
[inst-discovered] theory-solving 0x0 basic# ; #13003
[mk-app] #13004 = #13003 #13002
[instance] 0x0 #13004
[attach-enode] #13004 0
[end-of-instance]
[mk-quant] #13003 internal_core__fmt__impl&__29_trait_impl_definition 2 #10252 #13002
[attach-var-names] #13003 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #3188 #10220
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10181
[mk-app] #13004 = #10181 #12993
[instance] 0x0 #13004
[attach-enode] #13004 0
[end-of-instance]
[mk-app] #13004 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13004
[mk-app] #13005 = #13004 #12992
[instance] 0x0 #13005
[attach-enode] #13005 0
[end-of-instance]
[mk-app] #13004 or #3188 #10220 #10256
[mk-app] #13005 or #12992 #10256
[inst-discovered] theory-solving 0x0 basic# ; #13005
[mk-app] #13006 = #13005 #13004
[instance] 0x0 #13006
[attach-enode] #13006 0
[end-of-instance]
[mk-quant] #13005 internal_core__slice__iter__impl&__3_trait_impl_definition 2 #10258 #13004
[attach-var-names] #13005 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #3188 #10220
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10181
[mk-app] #13006 = #10181 #12993
[instance] 0x0 #13006
[attach-enode] #13006 0
[end-of-instance]
[mk-app] #13006 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13006
[mk-app] #13007 = #13006 #12992
[instance] 0x0 #13007
[attach-enode] #13007 0
[end-of-instance]
[mk-app] #13006 or #3188 #10220 #10262
[mk-app] #13007 or #12992 #10262
[inst-discovered] theory-solving 0x0 basic# ; #13007
[mk-app] #13008 = #13007 #13006
[instance] 0x0 #13008
[attach-enode] #13008 0
[end-of-instance]
[mk-quant] #13007 internal_core__slice__iter__impl&__9_trait_impl_definition 2 #10264 #13006
[attach-var-names] #13007 (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #3188 #12945 #10314
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10269
[mk-app] #13008 = #10269 #12993
[instance] 0x0 #13008
[attach-enode] #13008 0
[end-of-instance]
[mk-app] #13008 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13008
[mk-app] #13009 = #13008 #12992
[instance] 0x0 #13009
[attach-enode] #13009 0
[end-of-instance]
[mk-app] #13008 or #3188 #12945 #10314 #10270
[mk-app] #13009 or #12992 #10270
[inst-discovered] theory-solving 0x0 basic# ; #13009
[mk-app] #13010 = #13009 #13008
[instance] 0x0 #13010
[attach-enode] #13010 0
[end-of-instance]
[mk-quant] #13009 internal_alloc__boxed__impl&__25_trait_impl_definition 4 #10272 #13008
[attach-var-names] #13009 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #3188 #12945 #10314
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10269
[mk-app] #13010 = #10269 #12993
[instance] 0x0 #13010
[attach-enode] #13010 0
[end-of-instance]
[mk-app] #13010 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13010
[mk-app] #13011 = #13010 #12992
[instance] 0x0 #13011
[attach-enode] #13011 0
[end-of-instance]
[mk-app] #13010 or #3188 #12945 #10314 #10277
[mk-app] #13011 or #12992 #10277
[inst-discovered] theory-solving 0x0 basic# ; #13011
[mk-app] #13012 = #13011 #13010
[instance] 0x0 #13012
[attach-enode] #13012 0
[end-of-instance]
[mk-quant] #13011 internal_alloc__rc__impl&__51_trait_impl_definition 4 #10279 #13010
[attach-var-names] #13011 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #3188 #12945 #10314
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10269
[mk-app] #13012 = #10269 #12993
[instance] 0x0 #13012
[attach-enode] #13012 0
[end-of-instance]
[mk-app] #13012 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13012
[mk-app] #13013 = #13012 #12992
[instance] 0x0 #13013
[attach-enode] #13013 0
[end-of-instance]
[mk-app] #13012 or #3188 #12945 #10314 #10284
[mk-app] #13013 or #12992 #10284
[inst-discovered] theory-solving 0x0 basic# ; #13013
[mk-app] #13014 = #13013 #13012
[instance] 0x0 #13014
[attach-enode] #13014 0
[end-of-instance]
[mk-quant] #13013 internal_alloc__sync__impl&__60_trait_impl_definition 4 #10286 #13012
[attach-var-names] #13013 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #4044 #3188 #12945 #10314
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10290
[mk-app] #13014 = #10290 #12993
[instance] 0x0 #13014
[attach-enode] #13014 0
[end-of-instance]
[mk-app] #13014 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13014
[mk-app] #13015 = #13014 #12992
[instance] 0x0 #13015
[attach-enode] #13015 0
[end-of-instance]
[mk-app] #13014 or #4044 #3188 #12945 #10314 #10291
[mk-app] #13015 or #12992 #10291
[inst-discovered] theory-solving 0x0 basic# ; #13015
[mk-app] #13016 = #13015 #13014
[instance] 0x0 #13016
[attach-enode] #13016 0
[end-of-instance]
[mk-quant] #13015 internal_alloc__vec__into_iter__impl&__1_trait_impl_definition 4 #10293 #13014
[attach-var-names] #13015 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #4044 #3188 #12945 #10314
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10290
[mk-app] #13016 = #10290 #12993
[instance] 0x0 #13016
[attach-enode] #13016 0
[end-of-instance]
[mk-app] #13016 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13016
[mk-app] #13017 = #13016 #12992
[instance] 0x0 #13017
[attach-enode] #13017 0
[end-of-instance]
[mk-app] #13016 or #4044 #3188 #12945 #10314 #10298
[mk-app] #13017 or #12992 #10298
[inst-discovered] theory-solving 0x0 basic# ; #13017
[mk-app] #13018 = #13017 #13016
[instance] 0x0 #13018
[attach-enode] #13018 0
[end-of-instance]
[mk-quant] #13017 internal_alloc__vec__impl&__28_trait_impl_definition 4 #10300 #13016
[attach-var-names] #13017 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #3188 #12327 #10314
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10323
[mk-app] #13018 = #10323 #12993
[instance] 0x0 #13018
[attach-enode] #13018 0
[end-of-instance]
[mk-app] #13018 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13018
[mk-app] #13019 = #13018 #12992
[instance] 0x0 #13019
[attach-enode] #13019 0
[end-of-instance]
[mk-app] #13018 or #3188 #12327 #10314 #10324
[mk-app] #13019 or #12992 #10324
[inst-discovered] theory-solving 0x0 basic# ; #13019
[mk-app] #13020 = #13019 #13018
[instance] 0x0 #13020
[attach-enode] #13020 0
[end-of-instance]
[mk-quant] #13019 internal_alloc__boxed__impl&__49_trait_impl_definition 4 #10326 #13018
[attach-var-names] #13019 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #3188 #12327 #10314
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10323
[mk-app] #13020 = #10323 #12993
[instance] 0x0 #13020
[attach-enode] #13020 0
[end-of-instance]
[mk-app] #13020 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13020
[mk-app] #13021 = #13020 #12992
[instance] 0x0 #13021
[attach-enode] #13021 0
[end-of-instance]
[mk-app] #13020 or #3188 #12327 #10314 #10331
[mk-app] #13021 or #12992 #10331
[inst-discovered] theory-solving 0x0 basic# ; #13021
[mk-app] #13022 = #13021 #13020
[instance] 0x0 #13022
[attach-enode] #13022 0
[end-of-instance]
[mk-quant] #13021 internal_alloc__rc__impl&__116_trait_impl_definition 4 #10333 #13020
[attach-var-names] #13021 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #3188 #12327 #10314
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #10323
[mk-app] #13022 = #10323 #12993
[instance] 0x0 #13022
[attach-enode] #13022 0
[end-of-instance]
[mk-app] #13022 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13022
[mk-app] #13023 = #13022 #12992
[instance] 0x0 #13023
[attach-enode] #13023 0
[end-of-instance]
[mk-app] #13022 or #3188 #12327 #10314 #10337
[mk-app] #13023 or #12992 #10337
[inst-discovered] theory-solving 0x0 basic# ; #13023
[mk-app] #13024 = #13023 #13022
[instance] 0x0 #13024
[attach-enode] #13024 0
[end-of-instance]
[mk-quant] #13023 internal_alloc__sync__impl&__118_trait_impl_definition 4 #10339 #13022
[attach-var-names] #13023 (|A&| ; |Type|) (|A&.| ; |Dcr|) (|T&| ; |Type|) (|T&.| ; |Dcr|)
[mk-app] #12992 or #3188 #3087
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #3748
[mk-app] #13024 = #3748 #12993
[instance] 0x0 #13024
[attach-enode] #13024 0
[end-of-instance]
[mk-app] #13024 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13024
[mk-app] #13025 = #13024 #12992
[instance] 0x0 #13025
[attach-enode] #13025 0
[end-of-instance]
[mk-app] #13024 or #3188 #3087 #10418
[mk-app] #13025 or #12992 #10418
[inst-discovered] theory-solving 0x0 basic# ; #13025
[mk-app] #13026 = #13025 #13024
[instance] 0x0 #13026
[attach-enode] #13026 0
[end-of-instance]
[mk-quant] #13025 internal_core__iter__range__impl&__6__next__impl_fndef&__Fn_trait_impl_definition 2 #10420 #13024
[attach-var-names] #13025 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12992 or #3188 #3087
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #3748
[mk-app] #13026 = #3748 #12993
[instance] 0x0 #13026
[attach-enode] #13026 0
[end-of-instance]
[mk-app] #13026 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13026
[mk-app] #13027 = #13026 #12992
[instance] 0x0 #13027
[attach-enode] #13027 0
[end-of-instance]
[mk-app] #13026 or #3188 #3087 #10424
[mk-app] #13027 or #12992 #10424
[inst-discovered] theory-solving 0x0 basic# ; #13027
[mk-app] #13028 = #13027 #13026
[instance] 0x0 #13028
[attach-enode] #13028 0
[end-of-instance]
[mk-quant] #13027 internal_core__iter__range__impl&__6__next__impl_fndef&__FnMut_trait_impl_definition 2 #10426 #13026
[attach-var-names] #13027 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12992 or #3188 #3087
[mk-app] #12993 not #12992
[inst-discovered] theory-solving 0x0 basic# ; #3748
[mk-app] #13028 = #3748 #12993
[instance] 0x0 #13028
[attach-enode] #13028 0
[end-of-instance]
[mk-app] #13028 not #12993
[inst-discovered] theory-solving 0x0 basic# ; #13028
[mk-app] #13029 = #13028 #12992
[instance] 0x0 #13029
[attach-enode] #13029 0
[end-of-instance]
[mk-app] #13028 or #3188 #3087 #10430
[mk-app] #13029 or #12992 #10430
[inst-discovered] theory-solving 0x0 basic# ; #13029
[mk-app] #13030 = #13029 #13028
[instance] 0x0 #13030
[attach-enode] #13030 0
[end-of-instance]
[mk-quant] #13029 internal_core__iter__range__impl&__6__next__impl_fndef&__FnOnce_trait_impl_definition 2 #10432 #13028
[attach-var-names] #13029 (|A&| ; |Type|) (|A&.| ; |Dcr|)
[mk-app] #12992 not #6855
[mk-app] #12993 not #10450
[mk-app] #13030 or #11184 #12992 #12993
[mk-app] #13031 not #13030
[inst-discovered] theory-solving 0x0 basic# ; #10451
[mk-app] #13032 = #10451 #13031
[instance] 0x0 #13032
[attach-enode] #13032 0
[end-of-instance]
[mk-app] #13032 or #10452 #13031
[mk-app] #13033 = #10437 #13032
[mk-quant] #13034 internal_req__u_tokenizer!text.lemma_bpos._definition 3 #10446 #13033
[attach-var-names] #13034 (|j!| ; |Int|) (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #13035 not #10462
[mk-app] #13036 not #10479
[mk-app] #13037 not #10480
[mk-app] #13038 not #10470
[mk-app] #13039 not #10472
[mk-app] #13040 or #13035 #13036 #13037 #13038 #13039
[mk-app] #13041 not #13040
[inst-discovered] theory-solving 0x0 basic# ; #10483
[mk-app] #13042 = #10483 #13041
[instance] 0x0 #13042
[attach-enode] #13042 0
[end-of-instance]
[mk-app] #13042 = #13040 #10456
[mk-app] #13043 not #13042
[mk-app] #13044 = #10456 #13041
[inst-discovered] theory-solving 0x0 basic# ; #13044
[mk-app] #13045 = #13044 #13043
[instance] 0x0 #13045
[attach-enode] #13045 0
[end-of-instance]
[mk-app] #13041 not #13040
[inst-discovered] theory-solving 0x0 basic# ; #13043
[mk-app] #13041 = #13043 #13043
[instance] 0x0 #13041
[attach-enode] #13041 0
[end-of-instance]
[mk-quant] #13041 internal_ens__u_tokenizer!text.lemma_bpos._definition 3 #10475 #13043
[attach-var-names] #13041 (|j!| ; |Int|) (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #13044 or #343 #10499
[mk-app] #13045 not #13044
[inst-discovered] theory-solving 0x0 basic# ; #10503
[mk-app] #13046 = #10503 #13045
[instance] 0x0 #13046
[attach-enode] #13046 0
[end-of-instance]
[mk-app] #13046 or #10504 #13045
[mk-app] #13047 = #10487 #13046
[mk-quant] #13048 internal_req__u_tokenizer!text.lemma_step._definition 2 #10495 #13047
[attach-var-names] #13048 (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #13049 not #10526
[mk-app] #13050 or #343 #13049
[mk-app] #13051 not #13050
[inst-discovered] theory-solving 0x0 basic# ; #10527
[mk-app] #13052 = #10527 #13051
[instance] 0x0 #13052
[attach-enode] #13052 0
[end-of-instance]
[mk-app] #13052 or #10528 #13051
[mk-app] #13053 = #10518 #13052
[mk-quant] #13054 internal_req__u_tokenizer!text.lemma_ci._definition 2 #10524 #13053
[attach-var-names] #13054 (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #13055 not #10534
[mk-app] #13056 not #10536
[mk-app] #13057 or #13055 #13056
[mk-app] #13058 not #13057
[inst-discovered] theory-solving 0x0 basic# ; #10537
[mk-app] #13059 = #10537 #13058
[instance] 0x0 #13059
[attach-enode] #13059 0
[end-of-instance]
[mk-app] #13059 = #13057 #10532
[mk-app] #13060 not #13059
[mk-app] #13061 = #10532 #13058
[inst-discovered] theory-solving 0x0 basic# ; #13061
[mk-app] #13062 = #13061 #13060
[instance] 0x0 #13062
[attach-enode] #13062 0
[end-of-instance]
[mk-app] #13058 not #13057
[inst-discovered] theory-solving 0x0 basic# ; #13060
[mk-app] #13058 = #13060 #13060
[instance] 0x0 #13058
[attach-enode] #13058 0
[end-of-instance]
[mk-quant] #13058 internal_ens__u_tokenizer!text.lemma_ci._definition 2 #10539 #13060
[attach-var-names] #13058 (|i!| ; |Int|) (|s!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #13061 not #10565
[mk-app] #13062 not #10567
[mk-app] #13063 not #10569
[mk-app] #13064 or #13061 #13062 #13063
[mk-app] #13065 not #13064
[inst-discovered] theory-solving 0x0 basic# ; #10570
[mk-app] #13066 = #10570 #13065
[instance] 0x0 #13066
[attach-enode] #13066 0
[end-of-instance]
[mk-app] #13066 = #13064 #10543
[mk-app] #13067 not #13066
[mk-app] #13068 = #10543 #13065
[inst-discovered] theory-solving 0x0 basic# ; #13068
[mk-app] #13069 = #13068 #13067
[instance] 0x0 #13069
[attach-enode] #13069 0
[end-of-instance]
[mk-app] #13065 not #13064
[inst-discovered] theory-solving 0x0 basic# ; #13067
[mk-app] #13065 = #13067 #13067
[instance] 0x0 #13065
[attach-enode] #13065 0
[end-of-instance]
[mk-quant] #13065 internal_req__u_tokenizer!lst.lemma_range._definition 4 #10562 #13067
[attach-var-names] #13065 (|b!| ; |Int|) (|a!| ; |Int|) (|r!| ; |u_tokenizer!error.SourceRange.|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #13068 not #10587
[mk-app] #13069 or #11184 #13068
[mk-app] #13070 not #13069
[inst-discovered] theory-solving 0x0 basic# ; #10588
[mk-app] #13071 = #10588 #13070
[instance] 0x0 #13071
[attach-enode] #13071 0
[end-of-instance]
[mk-app] #13071 or #10589 #13070
[mk-app] #13072 = #10578 #13071
[mk-quant] #13073 internal_req__u_tokenizer!lex.lemma_scan._definition 3 #10584 #13072
[attach-var-names] #13073 (|w!| ; |u_tokenizer!lex.Class.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #13074 not #10625
[mk-app] #13075 or #13074 #10629
[mk-app] #13076 not #13075
[inst-discovered] theory-solving 0x0 basic# ; #10633
[mk-app] #13077 = #10633 #13076
[instance] 0x0 #13077
[attach-enode] #13077 0
[end-of-instance]
[mk-app] #13077 not #13076
[inst-discovered] theory-solving 0x0 basic# ; #13077
[mk-app] #13078 = #13077 #13075
[instance] 0x0 #13078
[attach-enode] #13078 0
[end-of-instance]
[mk-app] #13076 or #192 #13074 #10629 #10605
[mk-app] #13077 or #192 #13075 #10605
[inst-discovered] theory-solving 0x0 basic# ; #13077
[mk-app] #13078 = #13077 #13076
[instance] 0x0 #13078
[attach-enode] #13078 0
[end-of-instance]
[mk-quant] #13075 user_u_tokenizer__lex__lemma_scan_0 1 #10608 #13076
[attach-var-names] #13075 (|i$| ; |Poly|)
[inst-discovered] theory-solving 0x0 basic# ; #10639
[mk-app] #13077 = #10639 #10639
[instance] 0x0 #13077
[attach-enode] #13077 0
[end-of-instance]
[mk-app] #13077 not #13075
[mk-app] #13078 or #11516 #11517 #13077 #11545
[mk-app] #13079 not #13078
[mk-app] #13080 and #10622 #10623 #13075 #10639
[inst-discovered] theory-solving 0x0 basic# ; #13080
[mk-app] #13081 = #13080 #13079
[instance] 0x0 #13081
[attach-enode] #13081 0
[end-of-instance]
[mk-app] #13080 or #11515 #13079
[mk-app] #13081 not #11554
[mk-app] #13082 or #13081 #11556
[mk-app] #13083 not #13082
[inst-discovered] theory-solving 0x0 basic# ; #11557
[mk-app] #13084 = #11557 #13083
[instance] 0x0 #13084
[attach-enode] #13084 0
[end-of-instance]
[mk-app] #13084 not #13083
[inst-discovered] theory-solving 0x0 basic# ; #13084
[mk-app] #13085 = #13084 #13082
[instance] 0x0 #13085
[attach-enode] #13085 0
[end-of-instance]
[mk-app] #13083 or #11532 #13081 #11556 #11542
[mk-app] #13084 or #11532 #13082 #11542
[inst-discovered] theory-solving 0x0 basic# ; #13084
[mk-app] #13085 = #13084 #13083
[instance] 0x0 #13085
[attach-enode] #13085 0
[end-of-instance]
[mk-app] #13082 not #13083
[mk-app] #13084 or #10593 #11516 #11517 #13082 #11545
[inst-discovered] theory-solving 0x0 basic# ; #13084
[mk-app] #13085 = #13084 #13084
[instance] 0x0 #13085
[attach-enode] #13085 0
[end-of-instance]
[mk-app] #13085 not #13080
[mk-app] #13086 not #13084
[mk-app] #13087 or #13085 #13086
[mk-app] #13088 not #13087
[mk-app] #13089 and #13080 #13084
[inst-discovered] theory-solving 0x0 basic# ; #13089
[mk-app] #13090 = #13089 #13088
[instance] 0x0 #13090
[attach-enode] #13090 0
[end-of-instance]
[mk-quant] #13089 internal_ens__u_tokenizer!lex.lemma_scan._definition 3 #10618 #13088
[attach-var-names] #13089 (|w!| ; |u_tokenizer!lex.Class.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #13090 not #10657
[mk-app] #13091 not #10658
[mk-app] #13092 not #10662
[mk-app] #13093 or #13090 #13091 #13092
[mk-app] #13094 not #13093
[inst-discovered] theory-solving 0x0 basic# ; #10663
[mk-app] #13095 = #10663 #13094
[instance] 0x0 #13095
[attach-enode] #13095 0
[end-of-instance]
[mk-app] #13095 or #10664 #13094
[mk-app] #13096 not #13095
[mk-app] #13097 not #10670
[mk-app] #13098 or #13096 #13097
[mk-app] #13099 not #13098
[mk-app] #13100 and #13095 #10670
[inst-discovered] theory-solving 0x0 basic# ; #13100
[mk-app] #13101 = #13100 #13099
[instance] 0x0 #13101
[attach-enode] #13101 0
[end-of-instance]
[mk-app] #13100 = #13098 #10638
[mk-app] #13101 not #13100
[mk-app] #13102 = #10638 #13099
[inst-discovered] theory-solving 0x0 basic# ; #13102
[mk-app] #13103 = #13102 #13101
[instance] 0x0 #13103
[attach-enode] #13103 0
[end-of-instance]
[mk-app] #13099 not #13098
[inst-discovered] theory-solving 0x0 basic# ; #13101
[mk-app] #13099 = #13101 #13101
[instance] 0x0 #13099
[attach-enode] #13099 0
[end-of-instance]
[mk-quant] #13099 internal_req__u_tokenizer!lex.lemma_scan_on._definition 4 #10655 #13101
[attach-var-names] #13099 (|w!| ; |u_tokenizer!lex.Class.|) (|j!| ; |Int|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[inst-discovered] theory-solving 0x0 basic# ; #10503
[mk-app] #13102 = #10503 #13045
[instance] 0x0 #13102
[attach-enode] #13102 0
[end-of-instance]
[mk-app] #13102 or #10688 #13045
[mk-app] #13103 = #10680 #13102
[mk-quant] #13104 internal_req__u_tokenizer!lex.lemma_step_next._definition 2 #10684 #13103
[attach-var-names] #13104 (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #13105 not #10707
[mk-app] #13106 not #10746
[mk-app] #13107 not #10749
[mk-app] #13108 or #13105 #10742 #13106 #13107
[mk-app] #13109 not #13108
[inst-discovered] theory-solving 0x0 basic# ; #10750
[mk-app] #13110 = #10750 #13109
[instance] 0x0 #13110
[attach-enode] #13110 0
[end-of-instance]
[mk-app] #13110 or #10751 #13109
[mk-app] #13111 not #10753
[mk-app] #13112 or #13111 #10748
[mk-app] #13113 not #13112
[inst-discovered] theory-solving 0x0 basic# ; #10754
[mk-app] #13114 = #10754 #13113
[instance] 0x0 #13114
[attach-enode] #13114 0
[end-of-instance]
[mk-app] #13114 not #13113
[inst-discovered] theory-solving 0x0 basic# ; #13114
[mk-app] #13115 = #13114 #13112
[instance] 0x0 #13115
[attach-enode] #13115 0
[end-of-instance]
[mk-app] #13113 not #10723
[mk-app] #13114 not #10724
[mk-app] #13115 or #13113 #13114
[mk-app] #13116 not #13115
[inst-discovered] theory-solving 0x0 basic# ; #10725
[mk-app] #13117 = #10725 #13116
[instance] 0x0 #13117
[attach-enode] #13117 0
[end-of-instance]
[mk-app] #13117 or #13111 #10748 #13116
[mk-app] #13118 or #13112 #13116
[inst-discovered] theory-solving 0x0 basic# ; #13118
[mk-app] #13119 = #13118 #13117
[instance] 0x0 #13119
[attach-enode] #13119 0
[end-of-instance]
[mk-app] #13112 not #10737
[mk-app] #13118 not #13110
[mk-app] #13119 not #13117
[mk-app] #13120 or #10733 #13112 #13118 #13119
[mk-app] #13121 not #13120
[mk-app] #13122 and #10734 #10737 #13110 #13117
[inst-discovered] theory-solving 0x0 basic# ; #13122
[mk-app] #13123 = #13122 #13121
[instance] 0x0 #13123
[attach-enode] #13123 0
[end-of-instance]
[mk-app] #13122 = #13120 #10686
[mk-app] #13123 not #13122
[mk-app] #13124 = #10686 #13121
[inst-discovered] theory-solving 0x0 basic# ; #13124
[mk-app] #13125 = #13124 #13123
[instance] 0x0 #13125
[attach-enode] #13125 0
[end-of-instance]
[mk-app] #13121 not #13120
[inst-discovered] theory-solving 0x0 basic# ; #13123
[mk-app] #13121 = #13123 #13123
[instance] 0x0 #13121
[attach-enode] #13121 0
[end-of-instance]
[mk-quant] #13121 internal_ens__u_tokenizer!lex.lemma_step_next._definition 2 #10729 #13123
[attach-var-names] #13121 (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #13124 or #11184 #10766
[mk-app] #13125 not #13124
[inst-discovered] theory-solving 0x0 basic# ; #10768
[mk-app] #13126 = #10768 #13125
[instance] 0x0 #13126
[attach-enode] #13126 0
[end-of-instance]
[mk-app] #13126 or #10769 #13125
[mk-app] #13127 = #10731 #13126
[mk-quant] #13128 internal_req__u_tokenizer!lex.lemma_lexed._definition 3 #10762 #13127
[attach-var-names] #13128 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #13129 not #10779
[mk-app] #13130 not #10785
[mk-app] #13131 or #13129 #13130
[mk-app] #13132 not #13131
[inst-discovered] theory-solving 0x0 basic# ; #10786
[mk-app] #13133 = #10786 #13132
[instance] 0x0 #13133
[attach-enode] #13133 0
[end-of-instance]
[mk-app] #13133 = #13131 #10775
[mk-app] #13134 not #13133
[mk-app] #13135 = #10775 #13132
[inst-discovered] theory-solving 0x0 basic# ; #13135
[mk-app] #13136 = #13135 #13134
[instance] 0x0 #13136
[attach-enode] #13136 0
[end-of-instance]
[mk-app] #13132 not #13131
[inst-discovered] theory-solving 0x0 basic# ; #13134
[mk-app] #13132 = #13134 #13134
[instance] 0x0 #13132
[attach-enode] #13132 0
[end-of-instance]
[mk-app] #13132 not #10798
[mk-app] #13135 or #13133 #13132
[mk-app] #13136 not #13135
[mk-app] #13137 and #13134 #10798
[inst-discovered] theory-solving 0x0 basic# ; #13137
[mk-app] #13138 = #13137 #13136
[instance] 0x0 #13138
[attach-enode] #13138 0
[end-of-instance]
[mk-app] #13137 = #13135 #10764
[mk-app] #13138 not #13137
[mk-app] #13139 = #10764 #13136
[inst-discovered] theory-solving 0x0 basic# ; #13139
[mk-app] #13140 = #13139 #13138
[instance] 0x0 #13140
[attach-enode] #13140 0
[end-of-instance]
[mk-app] #13136 not #13135
[inst-discovered] theory-solving 0x0 basic# ; #13138
[mk-app] #13136 = #13138 #13138
[instance] 0x0 #13136
[attach-enode] #13136 0
[end-of-instance]
[mk-quant] #13136 internal_ens__u_tokenizer!lex.lemma_lexed._definition 3 #10801 #13138
[attach-var-names] #13136 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[inst-discovered] theory-solving 0x0 basic# ; #10527
[mk-app] #13134 = #10527 #13051
[instance] 0x0 #13134
[attach-enode] #13134 0
[end-of-instance]
[mk-app] #13134 or #10816 #13051
[mk-app] #13139 not #13134
[mk-app] #13140 not #10819
[mk-app] #13141 or #13139 #13140
[mk-app] #13142 not #13141
[mk-app] #13143 and #13134 #10819
[inst-discovered] theory-solving 0x0 basic# ; #13143
[mk-app] #13144 = #13143 #13142
[instance] 0x0 #13144
[attach-enode] #13144 0
[end-of-instance]
[mk-app] #13143 = #13141 #10803
[mk-app] #13144 not #13143
[mk-app] #13145 = #10803 #13142
[inst-discovered] theory-solving 0x0 basic# ; #13145
[mk-app] #13146 = #13145 #13144
[instance] 0x0 #13146
[attach-enode] #13146 0
[end-of-instance]
[mk-app] #13142 not #13141
[inst-discovered] theory-solving 0x0 basic# ; #13144
[mk-app] #13142 = #13144 #13144
[instance] 0x0 #13142
[attach-enode] #13142 0
[end-of-instance]
[mk-quant] #13142 internal_req__u_tokenizer!lex.lemma_exact._definition 2 #10814 #13144
[attach-var-names] #13142 (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #13145 not #10891
[mk-app] #13146 or #13145 #10893
[mk-app] #13147 not #13146
[inst-discovered] theory-solving 0x0 basic# ; #10897
[mk-app] #13148 = #10897 #13147
[instance] 0x0 #13148
[attach-enode] #13148 0
[end-of-instance]
[mk-app] #13148 or #10898 #13147
[inst-discovered] theory-solving 0x0 basic# ; #10904
[mk-app] #13149 = #10904 #10904
[instance] 0x0 #13149
[attach-enode] #13149 0
[end-of-instance]
[mk-app] #13149 not #10872
[mk-app] #13150 not #10875
[mk-app] #13151 not #10879
[mk-app] #13152 or #13149 #13150 #13151
[mk-app] #13153 not #13152
[inst-discovered] theory-solving 0x0 basic# ; #10905
[mk-app] #13154 = #10905 #13153
[instance] 0x0 #13154
[attach-enode] #13154 0
[end-of-instance]
[mk-app] #13154 if #10902 #13153 #10881
[mk-app] #13155 not #13154
[mk-app] #13156 or #1273 #10853 #13155
[mk-app] #13157 not #13156
[mk-app] #13158 and #10859 #10852 #13154
[inst-discovered] theory-solving 0x0 basic# ; #13158
[mk-app] #13159 = #13158 #13157
[instance] 0x0 #13159
[attach-enode] #13159 0
[end-of-instance]
[mk-app] #13158 or #10909 #2310 #13157
[inst-discovered] theory-solving 0x0 basic# ; #13158
[mk-app] #13159 = #13158 #13158
[instance] 0x0 #13159
[attach-enode] #13159 0
[end-of-instance]
[mk-app] #13159 not #13148
[mk-app] #13160 not #10901
[mk-app] #13161 not #10904
[mk-app] #13162 not #13158
[mk-app] #13163 or #13159 #13160 #13161 #13162
[mk-app] #13164 not #13163
[mk-app] #13165 and #13148 #10901 #10904 #13158
[inst-discovered] theory-solving 0x0 basic# ; #13165
[mk-app] #13166 = #13165 #13164
[instance] 0x0 #13166
[attach-enode] #13166 0
[end-of-instance]
[mk-app] #13165 = #13163 #10834
[mk-app] #13166 not #13165
[mk-app] #13167 = #10834 #13164
[inst-discovered] theory-solving 0x0 basic# ; #13167
[mk-app] #13168 = #13167 #13166
[instance] 0x0 #13168
[attach-enode] #13168 0
[end-of-instance]
[mk-app] #13164 not #13163
[inst-discovered] theory-solving 0x0 basic# ; #13166
[mk-app] #13164 = #13166 #13166
[instance] 0x0 #13164
[attach-enode] #13164 0
[end-of-instance]
[mk-quant] #13164 internal_req__u_tokenizer!tokenizer.lemma_progress._definition 7 #10888 #13166
[attach-var-names] #13164 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|wrong!| ; |Bool|) (|was!| ; |Bool|) (|xs!| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|) (|had!| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|) (|k!| ; |Int|) (|t!| ; |vstd!seq.Seq<char.>.|)
[inst-discovered] theory-solving 0x0 basic# ; #10958
[mk-app] #13167 = #10958 #10958
[instance] 0x0 #13167
[attach-enode] #13167 0
[end-of-instance]
[mk-app] #13167 not #10949
[mk-app] #13168 not #10950
[mk-app] #13169 or #13167 #13168
[mk-app] #13170 not #13169
[inst-discovered] theory-solving 0x0 basic# ; #10951
[mk-app] #13171 = #10951 #13170
[instance] 0x0 #13171
[attach-enode] #13171 0
[end-of-instance]
[mk-app] #13171 or #2310 #13170
[inst-discovered] theory-solving 0x0 basic# ; #13171
[mk-app] #13172 = #13171 #13171
[instance] 0x0 #13172
[attach-enode] #13172 0
[end-of-instance]
[mk-app] #13172 not #13171
[mk-app] #13173 or #10957 #13172
[mk-app] #13174 not #13173
[mk-app] #13175 and #10958 #13171
[inst-discovered] theory-solving 0x0 basic# ; #13175
[mk-app] #13176 = #13175 #13174
[instance] 0x0 #13176
[attach-enode] #13176 0
[end-of-instance]
[mk-app] #13175 = #13173 #10941
[mk-app] #13176 not #13175
[mk-app] #13177 = #10941 #13174
[inst-discovered] theory-solving 0x0 basic# ; #13177
[mk-app] #13178 = #13177 #13176
[instance] 0x0 #13178
[attach-enode] #13178 0
[end-of-instance]
[mk-app] #13174 not #13173
[inst-discovered] theory-solving 0x0 basic# ; #13176
[mk-app] #13174 = #13176 #13176
[instance] 0x0 #13174
[attach-enode] #13174 0
[end-of-instance]
[mk-quant] #13174 internal_ens__u_tokenizer!tokenizer.lemma_finish._definition 4 #10955 #13176
[attach-var-names] #13174 (|done!| ; |vstd!seq.Seq<u_tokenizer!lex.Tok.>.|) (|wrong!| ; |Bool|) (|xs!| ; |vstd!seq.Seq<u_tokenizer!token.Token.>.|) (|t!| ; |vstd!seq.Seq<char.>.|)
[mk-app] #13177 not #10977
[mk-app] #13178 not #10979
[mk-app] #13179 or #10981 #13177 #13178
[mk-app] #13180 not #13179
[inst-discovered] theory-solving 0x0 basic# ; #10987
[mk-app] #13181 = #10987 #13180
[instance] 0x0 #13181
[attach-enode] #13181 0
[end-of-instance]
[mk-app] #13181 if #1820 #13180 #10981
[mk-app] #13182 not #10966
[mk-app] #13183 not #13181
[mk-app] #13184 or #13182 #13183
[mk-app] #13185 not #13184
[mk-app] #13186 and #10966 #13181
[inst-discovered] theory-solving 0x0 basic# ; #13186
[mk-app] #13187 = #13186 #13185
[instance] 0x0 #13187
[attach-enode] #13187 0
[end-of-instance]
[mk-app] #13186 = #13184 #10964
[mk-app] #13187 not #13186
[mk-app] #13188 = #10964 #13185
[inst-discovered] theory-solving 0x0 basic# ; #13188
[mk-app] #13189 = #13188 #13187
[instance] 0x0 #13189
[attach-enode] #13189 0
[end-of-instance]
[mk-app] #13185 not #13184
[inst-discovered] theory-solving 0x0 basic# ; #13187
[mk-app] #13185 = #13187 #13187
[instance] 0x0 #13185
[attach-enode] #13185 0
[end-of-instance]
[mk-quant] #13185 internal_ens__u_tokenizer!tokenizer.tokenize._definition 3 #10985 #13187
[attach-var-names] #13185 (|r!| ; |core!result.Result.|) (|schema_contents!| ; |strslice%.|) (|schema_path!| ; |u_tokenizer!shim.PathBuf.|)
[inst-discovered] theory-solving 0x0 basic# ; #11249
[mk-app] #10987 = #11249 #11249
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11225
[mk-app] #10987 = #11225 #11225
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11152
[mk-app] #10987 = #11152 #11152
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11159
[mk-app] #10987 = #11159 #11159
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7715
[mk-app] #10987 = #7715 #7715
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11284
[mk-app] #10987 = #11284 #11284
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11291
[mk-app] #10987 = #11291 #11291
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11295
[mk-app] #10987 = #11295 #11295
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11470
[mk-app] #10987 = #11470 #11470
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #11536
[inst-discovered] theory-solving 0x0 basic# ; #11539
[mk-app] #10987 = #11539 #11539
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #11537
[inst-discovered] theory-solving 0x0 basic# ; #11546
[mk-app] #10987 = #11546 #11546
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11295
[mk-app] #10987 = #11295 #11295
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11470
[mk-app] #10987 = #11470 #11470
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #524
[mk-app] #10987 = #524 #524
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11186
[mk-app] #10987 = #11186 #11186
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11402
[mk-app] #10987 = #11402 #11402
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11411
[mk-app] #10987 = #11411 #11411
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11371
[mk-app] #10987 = #11371 #11371
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11377
[mk-app] #10987 = #11377 #11377
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11379
[mk-app] #10987 = #11379 #11379
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11502
[mk-app] #10987 = #11502 #11502
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11504
[mk-app] #10987 = #11504 #11504
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11506
[mk-app] #10987 = #11506 #11506
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11374
[mk-app] #10987 = #11374 #11374
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11512
[mk-app] #10987 = #11512 #11512
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1292
[mk-app] #10987 = #1292 #1292
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1294
[mk-app] #10987 = #1294 #1294
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #1242
[inst-discovered] theory-solving 0x0 basic# ; #11124
[mk-app] #10987 = #11124 #11124
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #11128
[inst-discovered] theory-solving 0x0 basic# ; #11133
[mk-app] #10987 = #11133 #11133
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #2838
[mk-app] #10987 = #2838 #2838
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #9453
[mk-app] #10987 = #9453 #9453
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4817
[mk-app] #10987 = #4817 #4817
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1089
[mk-app] #10987 = #1089 #1089
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11548
[mk-app] #10987 = #11548 #11548
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11576
[mk-app] #10987 = #11576 #11576
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11581
[mk-app] #10987 = #11581 #11581
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11588
[mk-app] #10987 = #11588 #11588
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11594
[mk-app] #10987 = #11594 #11594
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11601
[mk-app] #10987 = #11601 #11601
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11603
[mk-app] #10987 = #11603 #11603
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11125
[mk-app] #10987 = #11125 #11125
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11608
[mk-app] #10987 = #11608 #11608
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11613
[mk-app] #10987 = #11613 #11613
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11618
[mk-app] #10987 = #11618 #11618
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11622
[mk-app] #10987 = #11622 #11622
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11628
[mk-app] #10987 = #11628 #11628
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11638
[mk-app] #10987 = #11638 #11638
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11640
[mk-app] #10987 = #11640 #11640
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11646
[mk-app] #10987 = #11646 #11646
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11648
[mk-app] #10987 = #11648 #11648
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11654
[mk-app] #10987 = #11654 #11654
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11670
[mk-app] #10987 = #11670 #11670
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11670
[mk-app] #10987 = #11670 #11670
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #2997
[mk-app] #10987 = #2997 #2997
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11682
[mk-app] #10987 = #11682 #11682
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11686
[mk-app] #10987 = #11686 #11686
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11695
[mk-app] #10987 = #11695 #11695
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11704
[mk-app] #10987 = #11704 #11704
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11708
[mk-app] #10987 = #11708 #11708
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11708
[mk-app] #10987 = #11708 #11708
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11708
[mk-app] #10987 = #11708 #11708
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11731
[mk-app] #10987 = #11731 #11731
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11733
[mk-app] #10987 = #11733 #11733
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11739
[mk-app] #10987 = #11739 #11739
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11741
[mk-app] #10987 = #11741 #11741
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11757
[mk-app] #10987 = #11757 #11757
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11759
[mk-app] #10987 = #11759 #11759
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11777
[mk-app] #10987 = #11777 #11777
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11779
[mk-app] #10987 = #11779 #11779
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11781
[mk-app] #10987 = #11781 #11781
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11783
[mk-app] #10987 = #11783 #11783
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11785
[mk-app] #10987 = #11785 #11785
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11787
[mk-app] #10987 = #11787 #11787
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11789
[mk-app] #10987 = #11789 #11789
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11791
[mk-app] #10987 = #11791 #11791
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11801
[mk-app] #10987 = #11801 #11801
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11803
[mk-app] #10987 = #11803 #11803
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11805
[mk-app] #10987 = #11805 #11805
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11807
[mk-app] #10987 = #11807 #11807
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11809
[mk-app] #10987 = #11809 #11809
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11811
[mk-app] #10987 = #11811 #11811
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11813
[mk-app] #10987 = #11813 #11813
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11815
[mk-app] #10987 = #11815 #11815
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11817
[mk-app] #10987 = #11817 #11817
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11819
[mk-app] #10987 = #11819 #11819
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11821
[mk-app] #10987 = #11821 #11821
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11823
[mk-app] #10987 = #11823 #11823
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11825
[mk-app] #10987 = #11825 #11825
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11827
[mk-app] #10987 = #11827 #11827
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11829
[mk-app] #10987 = #11829 #11829
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11831
[mk-app] #10987 = #11831 #11831
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11838
[mk-app] #10987 = #11838 #11838
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11840
[mk-app] #10987 = #11840 #11840
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11842
[mk-app] #10987 = #11842 #11842
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11844
[mk-app] #10987 = #11844 #11844
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11857
[mk-app] #10987 = #11857 #11857
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11862
[mk-app] #10987 = #11862 #11862
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11865
[mk-app] #10987 = #11865 #11865
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11866
[mk-app] #10987 = #11866 #11866
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11875
[mk-app] #10987 = #11875 #11875
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11878
[mk-app] #10987 = #11878 #11878
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11884
[mk-app] #10987 = #11884 #11884
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11890
[mk-app] #10987 = #11890 #11890
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11892
[mk-app] #10987 = #11892 #11892
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11894
[mk-app] #10987 = #11894 #11894
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11901
[mk-app] #10987 = #11901 #11901
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11903
[mk-app] #10987 = #11903 #11903
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11907
[mk-app] #10987 = #11907 #11907
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11914
[mk-app] #10987 = #11914 #11914
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11915
[mk-app] #10987 = #11915 #11915
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11918
[mk-app] #10987 = #11918 #11918
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11920
[mk-app] #10987 = #11920 #11920
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11932
[mk-app] #10987 = #11932 #11932
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11935
[mk-app] #10987 = #11935 #11935
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11937
[mk-app] #10987 = #11937 #11937
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11941
[mk-app] #10987 = #11941 #11941
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11949
[mk-app] #10987 = #11949 #11949
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11960
[mk-app] #10987 = #11960 #11960
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11962
[mk-app] #10987 = #11962 #11962
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11964
[mk-app] #10987 = #11964 #11964
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11969
[mk-app] #10987 = #11969 #11969
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11972
[mk-app] #10987 = #11972 #11972
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11974
[mk-app] #10987 = #11974 #11974
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11979
[mk-app] #10987 = #11979 #11979
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11983
[mk-app] #10987 = #11983 #11983
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11982
[mk-app] #10987 = #11982 #11982
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11994
[mk-app] #10987 = #11994 #11994
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12005
[mk-app] #10987 = #12005 #12005
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12007
[mk-app] #10987 = #12007 #12007
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4523
[mk-app] #10987 = #4523 #4523
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12014
[mk-app] #10987 = #12014 #12014
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12019
[mk-app] #10987 = #12019 #12019
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12026
[mk-app] #10987 = #12026 #12026
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12027
[mk-app] #10987 = #12027 #12027
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12030
[mk-app] #10987 = #12030 #12030
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12032
[mk-app] #10987 = #12032 #12032
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12036
[mk-app] #10987 = #12036 #12036
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4668
[mk-app] #10987 = #4668 #4668
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12039
[mk-app] #10987 = #12039 #12039
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12046
[mk-app] #10987 = #12046 #12046
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12053
[mk-app] #10987 = #12053 #12053
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12063
[mk-app] #10987 = #12063 #12063
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12068
[mk-app] #10987 = #12068 #12068
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12072
[mk-app] #10987 = #12072 #12072
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12073
[mk-app] #10987 = #12073 #12073
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12078
[mk-app] #10987 = #12078 #12078
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12082
[mk-app] #10987 = #12082 #12082
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12065
[mk-app] #10987 = #12065 #12065
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12087
[mk-app] #10987 = #12087 #12087
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12090
[mk-app] #10987 = #12090 #12090
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12094
[mk-app] #10987 = #12094 #12094
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4991
[mk-app] #10987 = #4991 #4991
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12096
[mk-app] #10987 = #12096 #12096
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12098
[mk-app] #10987 = #12098 #12098
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12100
[mk-app] #10987 = #12100 #12100
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12102
[mk-app] #10987 = #12102 #12102
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12106
[mk-app] #10987 = #12106 #12106
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12113
[mk-app] #10987 = #12113 #12113
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12120
[mk-app] #10987 = #12120 #12120
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12127
[mk-app] #10987 = #12127 #12127
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12134
[mk-app] #10987 = #12134 #12134
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12137
[mk-app] #10987 = #12137 #12137
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12142
[mk-app] #10987 = #12142 #12142
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5496
[mk-app] #10987 = #5496 #5496
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12145
[mk-app] #10987 = #12145 #12145
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12148
[mk-app] #10987 = #12148 #12148
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12151
[mk-app] #10987 = #12151 #12151
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12164
[mk-app] #10987 = #12164 #12164
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12170
[mk-app] #10987 = #12170 #12170
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12170
[inst-discovered] theory-solving 0x0 basic# ; #12173
[mk-app] #10987 = #12173 #12173
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12181
[mk-app] #10987 = #12181 #12181
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12194
[mk-app] #10987 = #12194 #12194
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12201
[mk-app] #10987 = #12201 #12201
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12203
[mk-app] #10987 = #12203 #12203
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12205
[mk-app] #10987 = #12205 #12205
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12205
[inst-discovered] theory-solving 0x0 basic# ; #12208
[mk-app] #10987 = #12208 #12208
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12210
[mk-app] #10987 = #12210 #12210
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12216
[mk-app] #10987 = #12216 #12216
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12221
[mk-app] #10987 = #12221 #12221
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12226
[mk-app] #10987 = #12226 #12226
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12229
[mk-app] #10987 = #12229 #12229
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12239
[mk-app] #10987 = #12239 #12239
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12239
[inst-discovered] theory-solving 0x0 basic# ; #12242
[mk-app] #10987 = #12242 #12242
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12246
[mk-app] #10987 = #12246 #12246
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12248
[mk-app] #10987 = #12248 #12248
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5993
[mk-app] #10987 = #5993 #5993
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12253
[mk-app] #10987 = #12253 #12253
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12262
[mk-app] #10987 = #12262 #12262
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12265
[mk-app] #10987 = #12265 #12265
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6054
[mk-app] #10987 = #6054 #6054
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12269
[inst-discovered] theory-solving 0x0 basic# ; #12272
[mk-app] #10987 = #12272 #12272
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12276
[mk-app] #10987 = #12276 #12276
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12278
[inst-discovered] theory-solving 0x0 basic# ; #12281
[mk-app] #10987 = #12281 #12281
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12286
[mk-app] #10987 = #12286 #12286
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12288
[mk-app] #10987 = #12288 #12288
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12285
[mk-app] #10987 = #12285 #12285
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6161
[mk-app] #10987 = #6161 #6161
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12292
[inst-discovered] theory-solving 0x0 basic# ; #12295
[mk-app] #10987 = #12295 #12295
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12307
[mk-app] #10987 = #12307 #12307
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12307
[inst-discovered] theory-solving 0x0 basic# ; #12310
[mk-app] #10987 = #12310 #12310
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12312
[inst-discovered] theory-solving 0x0 basic# ; #12315
[mk-app] #10987 = #12315 #12315
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12317
[inst-discovered] theory-solving 0x0 basic# ; #12320
[mk-app] #10987 = #12320 #12320
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12322
[inst-discovered] theory-solving 0x0 basic# ; #12325
[mk-app] #10987 = #12325 #12325
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12328
[mk-app] #10987 = #12328 #12328
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12336
[mk-app] #10987 = #12336 #12336
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12339
[mk-app] #10987 = #12339 #12339
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12341
[mk-app] #10987 = #12341 #12341
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12345
[inst-discovered] theory-solving 0x0 basic# ; #12348
[mk-app] #10987 = #12348 #12348
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12353
[mk-app] #10987 = #12353 #12353
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12353
[inst-discovered] theory-solving 0x0 basic# ; #12356
[mk-app] #10987 = #12356 #12356
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12359
[mk-app] #10987 = #12359 #12359
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12359
[inst-discovered] theory-solving 0x0 basic# ; #12362
[mk-app] #10987 = #12362 #12362
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12365
[mk-app] #10987 = #12365 #12365
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12364
[mk-app] #10987 = #12364 #12364
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12372
[mk-app] #10987 = #12372 #12372
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12378
[inst-discovered] theory-solving 0x0 basic# ; #12381
[mk-app] #10987 = #12381 #12381
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12384
[mk-app] #10987 = #12384 #12384
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12383
[inst-discovered] theory-solving 0x0 basic# ; #12388
[mk-app] #10987 = #12388 #12388
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12393
[mk-app] #10987 = #12393 #12393
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12393
[inst-discovered] theory-solving 0x0 basic# ; #12396
[mk-app] #10987 = #12396 #12396
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6755
[mk-app] #10987 = #6755 #6755
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12397
[mk-app] #10987 = #12397 #12397
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12397
[inst-discovered] theory-solving 0x0 basic# ; #12400
[mk-app] #10987 = #12400 #12400
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12413
[mk-app] #10987 = #12413 #12413
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12423
[mk-app] #10987 = #12423 #12423
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12425
[mk-app] #10987 = #12425 #12425
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12430
[inst-discovered] theory-solving 0x0 basic# ; #12433
[mk-app] #10987 = #12433 #12433
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12438
[mk-app] #10987 = #12438 #12438
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12440
[inst-discovered] theory-solving 0x0 basic# ; #12443
[mk-app] #10987 = #12443 #12443
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12446
[inst-discovered] theory-solving 0x0 basic# ; #12449
[mk-app] #10987 = #12449 #12449
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7029
[mk-app] #10987 = #7029 #7029
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12452
[mk-app] #10987 = #12452 #12452
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12452
[inst-discovered] theory-solving 0x0 basic# ; #12455
[mk-app] #10987 = #12455 #12455
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12457
[mk-app] #10987 = #12457 #12457
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12460
[mk-app] #10987 = #12460 #12460
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7101
[mk-app] #10987 = #7101 #7101
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12466
[mk-app] #10987 = #12466 #12466
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12466
[inst-discovered] theory-solving 0x0 basic# ; #12469
[mk-app] #10987 = #12469 #12469
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12470
[mk-app] #10987 = #12470 #12470
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12473
[mk-app] #10987 = #12473 #12473
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7150
[mk-app] #10987 = #7150 #7150
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12479
[mk-app] #10987 = #12479 #12479
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7166
[mk-app] #10987 = #7166 #7166
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7168
[mk-app] #10987 = #7168 #7168
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7182
[mk-app] #10987 = #7182 #7182
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7185
[mk-app] #10987 = #7185 #7185
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12487
[inst-discovered] theory-solving 0x0 basic# ; #12490
[mk-app] #10987 = #12490 #12490
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12495
[mk-app] #10987 = #12495 #12495
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12497
[mk-app] #10987 = #12497 #12497
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12501
[mk-app] #10987 = #12501 #12501
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12507
[mk-app] #10987 = #12507 #12507
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12507
[inst-discovered] theory-solving 0x0 basic# ; #12510
[mk-app] #10987 = #12510 #12510
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12513
[mk-app] #10987 = #12513 #12513
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12515
[mk-app] #10987 = #12515 #12515
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7325
[mk-app] #10987 = #7325 #7325
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12519
[mk-app] #10987 = #12519 #12519
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12519
[inst-discovered] theory-solving 0x0 basic# ; #12522
[mk-app] #10987 = #12522 #12522
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12526
[mk-app] #10987 = #12526 #12526
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12526
[inst-discovered] theory-solving 0x0 basic# ; #12529
[mk-app] #10987 = #12529 #12529
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #175
[inst-discovered] theory-solving 0x0 basic# ; #12531
[mk-app] #10987 = #12531 #12531
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12530
[inst-discovered] theory-solving 0x0 basic# ; #12534
[mk-app] #10987 = #12534 #12534
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #175
[inst-discovered] theory-solving 0x0 basic# ; #12536
[mk-app] #10987 = #12536 #12536
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12535
[inst-discovered] theory-solving 0x0 basic# ; #12539
[mk-app] #10987 = #12539 #12539
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #175
[inst-discovered] theory-solving 0x0 basic# ; #12541
[mk-app] #10987 = #12541 #12541
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12540
[inst-discovered] theory-solving 0x0 basic# ; #12544
[mk-app] #10987 = #12544 #12544
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #175
[inst-discovered] theory-solving 0x0 basic# ; #12546
[mk-app] #10987 = #12546 #12546
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12545
[inst-discovered] theory-solving 0x0 basic# ; #12549
[mk-app] #10987 = #12549 #12549
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #175
[inst-discovered] theory-solving 0x0 basic# ; #12551
[mk-app] #10987 = #12551 #12551
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12550
[inst-discovered] theory-solving 0x0 basic# ; #12554
[mk-app] #10987 = #12554 #12554
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12556
[mk-app] #10987 = #12556 #12556
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12565
[mk-app] #10987 = #12565 #12565
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12564
[mk-app] #10987 = #12564 #12564
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12568
[mk-app] #10987 = #12568 #12568
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12573
[inst-discovered] theory-solving 0x0 basic# ; #12576
[mk-app] #10987 = #12576 #12576
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12578
[mk-app] #10987 = #12578 #12578
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12578
[mk-app] #10988 not #12580
[inst-discovered] theory-solving 0x0 basic# ; #12582
[mk-app] #10988 = #12582 #12582
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12586
[inst-discovered] theory-solving 0x0 basic# ; #12589
[mk-app] #10988 = #12589 #12589
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12594
[mk-app] #10988 = #12594 #12594
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12594
[inst-discovered] theory-solving 0x0 basic# ; #12597
[mk-app] #10988 = #12597 #12597
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12601
[mk-app] #10988 = #12601 #12601
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12600
[mk-app] #10988 = #12600 #12600
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12604
[mk-app] #10988 = #12604 #12604
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12609
[mk-app] #10988 = #12609 #12609
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12610
[mk-app] #10988 = #12610 #12610
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12613
[mk-app] #10988 = #12613 #12613
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12621
[mk-app] #10988 = #12621 #12621
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12623
[mk-app] #10988 = #12623 #12623
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12629
[mk-app] #10988 = #12629 #12629
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12631
[mk-app] #10988 = #12631 #12631
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12634
[mk-app] #10988 = #12634 #12634
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12643
[mk-app] #10988 = #12643 #12643
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12649
[mk-app] #10988 = #12649 #12649
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12705
[mk-app] #10988 = #12705 #12705
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12719
[mk-app] #10988 = #12719 #12719
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12722
[mk-app] #10988 = #12722 #12722
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12725
[mk-app] #10988 = #12725 #12725
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12729
[mk-app] #10988 = #12729 #12729
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12732
[mk-app] #10988 = #12732 #12732
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12734
[mk-app] #10988 = #12734 #12734
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8681
[mk-app] #10988 = #8681 #8681
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12739
[mk-app] #10988 = #12739 #12739
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8829
[mk-app] #10988 = #8829 #8829
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12738
[mk-app] #10988 = #12738 #12738
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12751
[mk-app] #10988 = #12751 #12751
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12754
[mk-app] #10988 = #12754 #12754
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12764
[mk-app] #10988 = #12764 #12764
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12766
[mk-app] #10988 = #12766 #12766
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12769
[mk-app] #10988 = #12769 #12769
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12776
[mk-app] #10988 = #12776 #12776
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12777
[mk-app] #10988 = #12777 #12777
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12780
[mk-app] #10988 = #12780 #12780
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12790
[mk-app] #10988 = #12790 #12790
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12794
[mk-app] #10988 = #12794 #12794
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12796
[mk-app] #10988 = #12796 #12796
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12801
[mk-app] #10988 = #12801 #12801
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12801
[inst-discovered] theory-solving 0x0 basic# ; #12804
[mk-app] #10988 = #12804 #12804
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12815
[mk-app] #10988 = #12815 #12815
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12818
[mk-app] #10988 = #12818 #12818
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #9473
[inst-discovered] theory-solving 0x0 basic# ; #12825
[mk-app] #10988 = #12825 #12825
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12824
[mk-app] #10988 = #12824 #12824
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12839
[mk-app] #10988 = #12839 #12839
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12847
[mk-app] #10988 = #12847 #12847
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12849
[mk-app] #10988 = #12849 #12849
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12832
[mk-app] #10988 = #12832 #12832
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12855
[mk-app] #10988 = #12855 #12855
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12861
[mk-app] #10988 = #12861 #12861
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12863
[mk-app] #10988 = #12863 #12863
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12867
[mk-app] #10988 = #12867 #12867
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12870
[mk-app] #10988 = #12870 #12870
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12869
[mk-app] #10988 = #12869 #12869
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12874
[mk-app] #10988 = #12874 #12874
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12876
[mk-app] #10988 = #12876 #12876
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12880
[mk-app] #10988 = #12880 #12880
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12882
[mk-app] #10988 = #12882 #12882
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12884
[mk-app] #10988 = #12884 #12884
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12886
[mk-app] #10988 = #12886 #12886
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12889
[mk-app] #10988 = #12889 #12889
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12891
[mk-app] #10988 = #12891 #12891
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12896
[mk-app] #10988 = #12896 #12896
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12900
[mk-app] #10988 = #12900 #12900
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12902
[mk-app] #10988 = #12902 #12902
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12906
[mk-app] #10988 = #12906 #12906
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12908
[mk-app] #10988 = #12908 #12908
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12910
[mk-app] #10988 = #12910 #12910
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12912
[mk-app] #10988 = #12912 #12912
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12905
[mk-app] #10988 = #12905 #12905
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12915
[mk-app] #10988 = #12915 #12915
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12918
[mk-app] #10988 = #12918 #12918
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12920
[mk-app] #10988 = #12920 #12920
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12922
[mk-app] #10988 = #12922 #12922
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12927
[mk-app] #10988 = #12927 #12927
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12933
[mk-app] #10988 = #12933 #12933
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12935
[mk-app] #10988 = #12935 #12935
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12937
[mk-app] #10988 = #12937 #12937
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12939
[mk-app] #10988 = #12939 #12939
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12942
[mk-app] #10988 = #12942 #12942
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12941
[mk-app] #10988 = #12941 #12941
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12950
[mk-app] #10988 = #12950 #12950
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12960
[mk-app] #10988 = #12960 #12960
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12962
[mk-app] #10988 = #12962 #12962
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12965
[mk-app] #10988 = #12965 #12965
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12973
[mk-app] #10988 = #12973 #12973
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12975
[mk-app] #10988 = #12975 #12975
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12979
[mk-app] #10988 = #12979 #12979
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12981
[mk-app] #10988 = #12981 #12981
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12983
[mk-app] #10988 = #12983 #12983
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12985
[mk-app] #10988 = #12985 #12985
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12987
[mk-app] #10988 = #12987 #12987
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12991
[mk-app] #10988 = #12991 #12991
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12996
[mk-app] #10988 = #12996 #12996
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12998
[mk-app] #10988 = #12998 #12998
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13008
[mk-app] #10988 = #13008 #13008
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13010
[mk-app] #10988 = #13010 #13010
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13012
[mk-app] #10988 = #13012 #13012
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13014
[mk-app] #10988 = #13014 #13014
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13016
[mk-app] #10988 = #13016 #13016
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13018
[mk-app] #10988 = #13018 #13018
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13020
[mk-app] #10988 = #13020 #13020
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13022
[mk-app] #10988 = #13022 #13022
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13040
[mk-app] #10988 = #13040 #13040
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #13040
[inst-discovered] theory-solving 0x0 basic# ; #13043
[mk-app] #10988 = #13043 #13043
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #13057
[inst-discovered] theory-solving 0x0 basic# ; #13060
[mk-app] #10988 = #13060 #13060
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13064
[mk-app] #10988 = #13064 #13064
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #13064
[inst-discovered] theory-solving 0x0 basic# ; #13067
[mk-app] #10988 = #13067 #13067
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13076
[mk-app] #10988 = #13076 #13076
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10639
[mk-app] #10988 = #10639 #10639
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13078
[mk-app] #10988 = #13078 #13078
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13083
[mk-app] #10988 = #13083 #13083
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13084
[mk-app] #10988 = #13084 #13084
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13087
[mk-app] #10988 = #13087 #13087
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13098
[mk-app] #10988 = #13098 #13098
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #13098
[inst-discovered] theory-solving 0x0 basic# ; #13101
[mk-app] #10988 = #13101 #13101
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13108
[mk-app] #10988 = #13108 #13108
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13117
[mk-app] #10988 = #13117 #13117
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13120
[mk-app] #10988 = #13120 #13120
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #13120
[inst-discovered] theory-solving 0x0 basic# ; #13123
[mk-app] #10988 = #13123 #13123
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13135
[mk-app] #10988 = #13135 #13135
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #13135
[inst-discovered] theory-solving 0x0 basic# ; #13138
[mk-app] #10988 = #13138 #13138
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13141
[mk-app] #10988 = #13141 #13141
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #13141
[inst-discovered] theory-solving 0x0 basic# ; #13144
[mk-app] #10988 = #13144 #13144
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10904
[mk-app] #10988 = #10904 #10904
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13152
[mk-app] #10988 = #13152 #13152
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13156
[mk-app] #10988 = #13156 #13156
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13158
[mk-app] #10988 = #13158 #13158
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13163
[mk-app] #10988 = #13163 #13163
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #13163
[inst-discovered] theory-solving 0x0 basic# ; #13166
[mk-app] #10988 = #13166 #13166
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13169
[mk-app] #10988 = #13169 #13169
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13171
[mk-app] #10988 = #13171 #13171
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13173
[mk-app] #10988 = #13173 #13173
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #13173
[inst-discovered] theory-solving 0x0 basic# ; #13176
[mk-app] #10988 = #13176 #13176
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13179
[mk-app] #10988 = #13179 #13179
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #13184
[inst-discovered] theory-solving 0x0 basic# ; #13187
[mk-app] #10988 = #13187 #13187
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11249
[mk-app] #10988 = #11249 #11249
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11225
[mk-app] #10988 = #11225 #11225
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11152
[mk-app] #10988 = #11152 #11152
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11159
[mk-app] #10988 = #11159 #11159
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7715
[mk-app] #10988 = #7715 #7715
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11284
[mk-app] #10988 = #11284 #11284
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11291
[mk-app] #10988 = #11291 #11291
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11295
[mk-app] #10988 = #11295 #11295
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11470
[mk-app] #10988 = #11470 #11470
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #11536
[inst-discovered] theory-solving 0x0 basic# ; #11539
[mk-app] #10988 = #11539 #11539
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #11537
[inst-discovered] theory-solving 0x0 basic# ; #11546
[mk-app] #10988 = #11546 #11546
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11295
[mk-app] #10988 = #11295 #11295
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11470
[mk-app] #10988 = #11470 #11470
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #524
[mk-app] #10988 = #524 #524
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11186
[mk-app] #10988 = #11186 #11186
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11402
[mk-app] #10988 = #11402 #11402
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11411
[mk-app] #10988 = #11411 #11411
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11371
[mk-app] #10988 = #11371 #11371
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11377
[mk-app] #10988 = #11377 #11377
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11379
[mk-app] #10988 = #11379 #11379
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11502
[mk-app] #10988 = #11502 #11502
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11504
[mk-app] #10988 = #11504 #11504
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11506
[mk-app] #10988 = #11506 #11506
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11374
[mk-app] #10988 = #11374 #11374
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11512
[mk-app] #10988 = #11512 #11512
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1292
[mk-app] #10988 = #1292 #1292
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1294
[mk-app] #10988 = #1294 #1294
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #1242
[inst-discovered] theory-solving 0x0 basic# ; #11124
[mk-app] #10988 = #11124 #11124
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #11128
[inst-discovered] theory-solving 0x0 basic# ; #11133
[mk-app] #10988 = #11133 #11133
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1089
[mk-app] #10988 = #1089 #1089
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11601
[mk-app] #10988 = #11601 #11601
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11603
[mk-app] #10988 = #11603 #11603
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11125
[mk-app] #10988 = #11125 #11125
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11608
[mk-app] #10988 = #11608 #11608
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11613
[mk-app] #10988 = #11613 #11613
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11618
[mk-app] #10988 = #11618 #11618
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11622
[mk-app] #10988 = #11622 #11622
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11628
[mk-app] #10988 = #11628 #11628
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11638
[mk-app] #10988 = #11638 #11638
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11640
[mk-app] #10988 = #11640 #11640
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11646
[mk-app] #10988 = #11646 #11646
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11648
[mk-app] #10988 = #11648 #11648
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11654
[mk-app] #10988 = #11654 #11654
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11670
[mk-app] #10988 = #11670 #11670
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11670
[mk-app] #10988 = #11670 #11670
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #2997
[mk-app] #10988 = #2997 #2997
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11682
[mk-app] #10988 = #11682 #11682
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11686
[mk-app] #10988 = #11686 #11686
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11695
[mk-app] #10988 = #11695 #11695
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11704
[mk-app] #10988 = #11704 #11704
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11708
[mk-app] #10988 = #11708 #11708
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11708
[mk-app] #10988 = #11708 #11708
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11708
[mk-app] #10988 = #11708 #11708
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11731
[mk-app] #10988 = #11731 #11731
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11733
[mk-app] #10988 = #11733 #11733
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11739
[mk-app] #10988 = #11739 #11739
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11741
[mk-app] #10988 = #11741 #11741
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11757
[mk-app] #10988 = #11757 #11757
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11759
[mk-app] #10988 = #11759 #11759
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11777
[mk-app] #10988 = #11777 #11777
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11779
[mk-app] #10988 = #11779 #11779
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11781
[mk-app] #10988 = #11781 #11781
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11783
[mk-app] #10988 = #11783 #11783
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11785
[mk-app] #10988 = #11785 #11785
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11787
[mk-app] #10988 = #11787 #11787
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11789
[mk-app] #10988 = #11789 #11789
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11791
[mk-app] #10988 = #11791 #11791
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11801
[mk-app] #10988 = #11801 #11801
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11803
[mk-app] #10988 = #11803 #11803
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11805
[mk-app] #10988 = #11805 #11805
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11807
[mk-app] #10988 = #11807 #11807
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11809
[mk-app] #10988 = #11809 #11809
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11811
[mk-app] #10988 = #11811 #11811
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11813
[mk-app] #10988 = #11813 #11813
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11815
[mk-app] #10988 = #11815 #11815
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11817
[mk-app] #10988 = #11817 #11817
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11819
[mk-app] #10988 = #11819 #11819
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11821
[mk-app] #10988 = #11821 #11821
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11823
[mk-app] #10988 = #11823 #11823
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11825
[mk-app] #10988 = #11825 #11825
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11827
[mk-app] #10988 = #11827 #11827
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11829
[mk-app] #10988 = #11829 #11829
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11831
[mk-app] #10988 = #11831 #11831
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11838
[mk-app] #10988 = #11838 #11838
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11840
[mk-app] #10988 = #11840 #11840
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11842
[mk-app] #10988 = #11842 #11842
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11844
[mk-app] #10988 = #11844 #11844
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11857
[mk-app] #10988 = #11857 #11857
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11862
[mk-app] #10988 = #11862 #11862
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11865
[mk-app] #10988 = #11865 #11865
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11866
[mk-app] #10988 = #11866 #11866
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11875
[mk-app] #10988 = #11875 #11875
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11878
[mk-app] #10988 = #11878 #11878
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11884
[mk-app] #10988 = #11884 #11884
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11890
[mk-app] #10988 = #11890 #11890
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11892
[mk-app] #10988 = #11892 #11892
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11894
[mk-app] #10988 = #11894 #11894
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11901
[mk-app] #10988 = #11901 #11901
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11903
[mk-app] #10988 = #11903 #11903
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11907
[mk-app] #10988 = #11907 #11907
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11914
[mk-app] #10988 = #11914 #11914
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11915
[mk-app] #10988 = #11915 #11915
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11918
[mk-app] #10988 = #11918 #11918
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11920
[mk-app] #10988 = #11920 #11920
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11932
[mk-app] #10988 = #11932 #11932
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11935
[mk-app] #10988 = #11935 #11935
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11937
[mk-app] #10988 = #11937 #11937
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11941
[mk-app] #10988 = #11941 #11941
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11949
[mk-app] #10988 = #11949 #11949
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11960
[mk-app] #10988 = #11960 #11960
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11962
[mk-app] #10988 = #11962 #11962
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11964
[mk-app] #10988 = #11964 #11964
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11969
[mk-app] #10988 = #11969 #11969
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11972
[mk-app] #10988 = #11972 #11972
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11974
[mk-app] #10988 = #11974 #11974
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11979
[mk-app] #10988 = #11979 #11979
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11983
[mk-app] #10988 = #11983 #11983
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11982
[mk-app] #10988 = #11982 #11982
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #11994
[mk-app] #10988 = #11994 #11994
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12005
[mk-app] #10988 = #12005 #12005
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12007
[mk-app] #10988 = #12007 #12007
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4523
[mk-app] #10988 = #4523 #4523
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12014
[mk-app] #10988 = #12014 #12014
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12019
[mk-app] #10988 = #12019 #12019
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12026
[mk-app] #10988 = #12026 #12026
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12027
[mk-app] #10988 = #12027 #12027
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12030
[mk-app] #10988 = #12030 #12030
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12032
[mk-app] #10988 = #12032 #12032
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12036
[mk-app] #10988 = #12036 #12036
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4668
[mk-app] #10988 = #4668 #4668
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12039
[mk-app] #10988 = #12039 #12039
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12046
[mk-app] #10988 = #12046 #12046
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12053
[mk-app] #10988 = #12053 #12053
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12063
[mk-app] #10988 = #12063 #12063
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12068
[mk-app] #10988 = #12068 #12068
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12072
[mk-app] #10988 = #12072 #12072
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12073
[mk-app] #10988 = #12073 #12073
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12078
[mk-app] #10988 = #12078 #12078
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12082
[mk-app] #10988 = #12082 #12082
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12065
[mk-app] #10988 = #12065 #12065
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12087
[mk-app] #10988 = #12087 #12087
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12090
[mk-app] #10988 = #12090 #12090
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12094
[mk-app] #10988 = #12094 #12094
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4991
[mk-app] #10988 = #4991 #4991
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12096
[mk-app] #10988 = #12096 #12096
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12098
[mk-app] #10988 = #12098 #12098
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12100
[mk-app] #10988 = #12100 #12100
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12102
[mk-app] #10988 = #12102 #12102
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12106
[mk-app] #10988 = #12106 #12106
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12113
[mk-app] #10988 = #12113 #12113
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12120
[mk-app] #10988 = #12120 #12120
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12127
[mk-app] #10988 = #12127 #12127
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12134
[mk-app] #10988 = #12134 #12134
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12137
[mk-app] #10988 = #12137 #12137
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12142
[mk-app] #10988 = #12142 #12142
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5496
[mk-app] #10988 = #5496 #5496
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12145
[mk-app] #10988 = #12145 #12145
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12148
[mk-app] #10988 = #12148 #12148
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12151
[mk-app] #10988 = #12151 #12151
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12164
[mk-app] #10988 = #12164 #12164
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12170
[mk-app] #10988 = #12170 #12170
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12170
[inst-discovered] theory-solving 0x0 basic# ; #12173
[mk-app] #10988 = #12173 #12173
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12181
[mk-app] #10988 = #12181 #12181
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12194
[mk-app] #10988 = #12194 #12194
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12201
[mk-app] #10988 = #12201 #12201
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12203
[mk-app] #10988 = #12203 #12203
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12205
[mk-app] #10988 = #12205 #12205
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12205
[inst-discovered] theory-solving 0x0 basic# ; #12208
[mk-app] #10988 = #12208 #12208
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12210
[mk-app] #10988 = #12210 #12210
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12216
[mk-app] #10988 = #12216 #12216
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12221
[mk-app] #10988 = #12221 #12221
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12226
[mk-app] #10988 = #12226 #12226
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12229
[mk-app] #10988 = #12229 #12229
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12239
[mk-app] #10988 = #12239 #12239
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12239
[inst-discovered] theory-solving 0x0 basic# ; #12242
[mk-app] #10988 = #12242 #12242
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12246
[mk-app] #10988 = #12246 #12246
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12248
[mk-app] #10988 = #12248 #12248
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #5993
[mk-app] #10988 = #5993 #5993
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12253
[mk-app] #10988 = #12253 #12253
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12262
[mk-app] #10988 = #12262 #12262
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12265
[mk-app] #10988 = #12265 #12265
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6054
[mk-app] #10988 = #6054 #6054
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12269
[inst-discovered] theory-solving 0x0 basic# ; #12272
[mk-app] #10988 = #12272 #12272
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12276
[mk-app] #10988 = #12276 #12276
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12278
[inst-discovered] theory-solving 0x0 basic# ; #12281
[mk-app] #10988 = #12281 #12281
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12286
[mk-app] #10988 = #12286 #12286
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12288
[mk-app] #10988 = #12288 #12288
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12285
[mk-app] #10988 = #12285 #12285
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6161
[mk-app] #10988 = #6161 #6161
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12292
[inst-discovered] theory-solving 0x0 basic# ; #12295
[mk-app] #10988 = #12295 #12295
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12307
[mk-app] #10988 = #12307 #12307
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12307
[inst-discovered] theory-solving 0x0 basic# ; #12310
[mk-app] #10988 = #12310 #12310
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12312
[inst-discovered] theory-solving 0x0 basic# ; #12315
[mk-app] #10988 = #12315 #12315
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12317
[inst-discovered] theory-solving 0x0 basic# ; #12320
[mk-app] #10988 = #12320 #12320
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12322
[inst-discovered] theory-solving 0x0 basic# ; #12325
[mk-app] #10988 = #12325 #12325
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12328
[mk-app] #10988 = #12328 #12328
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12336
[mk-app] #10988 = #12336 #12336
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12339
[mk-app] #10988 = #12339 #12339
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12341
[mk-app] #10988 = #12341 #12341
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12345
[inst-discovered] theory-solving 0x0 basic# ; #12348
[mk-app] #10988 = #12348 #12348
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12353
[mk-app] #10988 = #12353 #12353
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12353
[inst-discovered] theory-solving 0x0 basic# ; #12356
[mk-app] #10988 = #12356 #12356
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12359
[mk-app] #10988 = #12359 #12359
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12359
[inst-discovered] theory-solving 0x0 basic# ; #12362
[mk-app] #10988 = #12362 #12362
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12365
[mk-app] #10988 = #12365 #12365
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12364
[mk-app] #10988 = #12364 #12364
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12372
[mk-app] #10988 = #12372 #12372
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12378
[inst-discovered] theory-solving 0x0 basic# ; #12381
[mk-app] #10988 = #12381 #12381
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12384
[mk-app] #10988 = #12384 #12384
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12383
[inst-discovered] theory-solving 0x0 basic# ; #12388
[mk-app] #10988 = #12388 #12388
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12393
[mk-app] #10988 = #12393 #12393
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12393
[inst-discovered] theory-solving 0x0 basic# ; #12396
[mk-app] #10988 = #12396 #12396
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #6755
[mk-app] #10988 = #6755 #6755
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12397
[mk-app] #10988 = #12397 #12397
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12397
[inst-discovered] theory-solving 0x0 basic# ; #12400
[mk-app] #10988 = #12400 #12400
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12413
[mk-app] #10988 = #12413 #12413
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12423
[mk-app] #10988 = #12423 #12423
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12425
[mk-app] #10988 = #12425 #12425
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12430
[inst-discovered] theory-solving 0x0 basic# ; #12433
[mk-app] #10988 = #12433 #12433
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12438
[mk-app] #10988 = #12438 #12438
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12440
[inst-discovered] theory-solving 0x0 basic# ; #12443
[mk-app] #10988 = #12443 #12443
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12446
[inst-discovered] theory-solving 0x0 basic# ; #12449
[mk-app] #10988 = #12449 #12449
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7029
[mk-app] #10988 = #7029 #7029
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12452
[mk-app] #10988 = #12452 #12452
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12452
[inst-discovered] theory-solving 0x0 basic# ; #12455
[mk-app] #10988 = #12455 #12455
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12457
[mk-app] #10988 = #12457 #12457
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12460
[mk-app] #10988 = #12460 #12460
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7101
[mk-app] #10988 = #7101 #7101
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12466
[mk-app] #10988 = #12466 #12466
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12466
[inst-discovered] theory-solving 0x0 basic# ; #12469
[mk-app] #10988 = #12469 #12469
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12470
[mk-app] #10988 = #12470 #12470
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12473
[mk-app] #10988 = #12473 #12473
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7150
[mk-app] #10988 = #7150 #7150
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12479
[mk-app] #10988 = #12479 #12479
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7166
[mk-app] #10988 = #7166 #7166
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7168
[mk-app] #10988 = #7168 #7168
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7182
[mk-app] #10988 = #7182 #7182
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7185
[mk-app] #10988 = #7185 #7185
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12487
[inst-discovered] theory-solving 0x0 basic# ; #12490
[mk-app] #10988 = #12490 #12490
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12495
[mk-app] #10988 = #12495 #12495
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12497
[mk-app] #10988 = #12497 #12497
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12501
[mk-app] #10988 = #12501 #12501
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12507
[mk-app] #10988 = #12507 #12507
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12507
[inst-discovered] theory-solving 0x0 basic# ; #12510
[mk-app] #10988 = #12510 #12510
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12513
[mk-app] #10988 = #12513 #12513
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12515
[mk-app] #10988 = #12515 #12515
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #7325
[mk-app] #10988 = #7325 #7325
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12519
[mk-app] #10988 = #12519 #12519
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12519
[inst-discovered] theory-solving 0x0 basic# ; #12522
[mk-app] #10988 = #12522 #12522
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12526
[mk-app] #10988 = #12526 #12526
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12526
[inst-discovered] theory-solving 0x0 basic# ; #12529
[mk-app] #10988 = #12529 #12529
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #175
[inst-discovered] theory-solving 0x0 basic# ; #12531
[mk-app] #10988 = #12531 #12531
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12530
[inst-discovered] theory-solving 0x0 basic# ; #12534
[mk-app] #10988 = #12534 #12534
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #175
[inst-discovered] theory-solving 0x0 basic# ; #12536
[mk-app] #10988 = #12536 #12536
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12535
[inst-discovered] theory-solving 0x0 basic# ; #12539
[mk-app] #10988 = #12539 #12539
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #175
[inst-discovered] theory-solving 0x0 basic# ; #12541
[mk-app] #10988 = #12541 #12541
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12540
[inst-discovered] theory-solving 0x0 basic# ; #12544
[mk-app] #10988 = #12544 #12544
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #175
[inst-discovered] theory-solving 0x0 basic# ; #12546
[mk-app] #10988 = #12546 #12546
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12545
[inst-discovered] theory-solving 0x0 basic# ; #12549
[mk-app] #10988 = #12549 #12549
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #175
[inst-discovered] theory-solving 0x0 basic# ; #12551
[mk-app] #10988 = #12551 #12551
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12550
[inst-discovered] theory-solving 0x0 basic# ; #12554
[mk-app] #10988 = #12554 #12554
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12556
[mk-app] #10988 = #12556 #12556
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12565
[mk-app] #10988 = #12565 #12565
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12564
[mk-app] #10988 = #12564 #12564
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12568
[mk-app] #10988 = #12568 #12568
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12573
[inst-discovered] theory-solving 0x0 basic# ; #12576
[mk-app] #10988 = #12576 #12576
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12578
[mk-app] #10988 = #12578 #12578
[instance] 0x0 #10988
[attach-enode] #10988 0
[end-of-instance]
[mk-app] #10988 not #12578
[mk-app] #10987 not #12580
[inst-discovered] theory-solving 0x0 basic# ; #12582
[mk-app] #10987 = #12582 #12582
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12586
[inst-discovered] theory-solving 0x0 basic# ; #12589
[mk-app] #10987 = #12589 #12589
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12594
[mk-app] #10987 = #12594 #12594
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12594
[inst-discovered] theory-solving 0x0 basic# ; #12597
[mk-app] #10987 = #12597 #12597
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12601
[mk-app] #10987 = #12601 #12601
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12600
[mk-app] #10987 = #12600 #12600
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12604
[mk-app] #10987 = #12604 #12604
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12609
[mk-app] #10987 = #12609 #12609
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12610
[mk-app] #10987 = #12610 #12610
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12613
[mk-app] #10987 = #12613 #12613
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12621
[mk-app] #10987 = #12621 #12621
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12623
[mk-app] #10987 = #12623 #12623
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12629
[mk-app] #10987 = #12629 #12629
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12631
[mk-app] #10987 = #12631 #12631
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12634
[mk-app] #10987 = #12634 #12634
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12643
[mk-app] #10987 = #12643 #12643
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12649
[mk-app] #10987 = #12649 #12649
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12705
[mk-app] #10987 = #12705 #12705
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12719
[mk-app] #10987 = #12719 #12719
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12722
[mk-app] #10987 = #12722 #12722
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12725
[mk-app] #10987 = #12725 #12725
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12729
[mk-app] #10987 = #12729 #12729
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12732
[mk-app] #10987 = #12732 #12732
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12734
[mk-app] #10987 = #12734 #12734
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8681
[mk-app] #10987 = #8681 #8681
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12739
[mk-app] #10987 = #12739 #12739
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #8829
[mk-app] #10987 = #8829 #8829
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12738
[mk-app] #10987 = #12738 #12738
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12751
[mk-app] #10987 = #12751 #12751
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12754
[mk-app] #10987 = #12754 #12754
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12764
[mk-app] #10987 = #12764 #12764
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12766
[mk-app] #10987 = #12766 #12766
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12769
[mk-app] #10987 = #12769 #12769
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12776
[mk-app] #10987 = #12776 #12776
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12777
[mk-app] #10987 = #12777 #12777
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12780
[mk-app] #10987 = #12780 #12780
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12790
[mk-app] #10987 = #12790 #12790
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12794
[mk-app] #10987 = #12794 #12794
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12796
[mk-app] #10987 = #12796 #12796
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12801
[mk-app] #10987 = #12801 #12801
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #12801
[inst-discovered] theory-solving 0x0 basic# ; #12804
[mk-app] #10987 = #12804 #12804
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12815
[mk-app] #10987 = #12815 #12815
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12818
[mk-app] #10987 = #12818 #12818
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #9473
[inst-discovered] theory-solving 0x0 basic# ; #12825
[mk-app] #10987 = #12825 #12825
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12824
[mk-app] #10987 = #12824 #12824
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12839
[mk-app] #10987 = #12839 #12839
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12847
[mk-app] #10987 = #12847 #12847
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12849
[mk-app] #10987 = #12849 #12849
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12832
[mk-app] #10987 = #12832 #12832
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12855
[mk-app] #10987 = #12855 #12855
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12861
[mk-app] #10987 = #12861 #12861
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12863
[mk-app] #10987 = #12863 #12863
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12867
[mk-app] #10987 = #12867 #12867
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12870
[mk-app] #10987 = #12870 #12870
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12869
[mk-app] #10987 = #12869 #12869
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12874
[mk-app] #10987 = #12874 #12874
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12876
[mk-app] #10987 = #12876 #12876
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12880
[mk-app] #10987 = #12880 #12880
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12882
[mk-app] #10987 = #12882 #12882
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12884
[mk-app] #10987 = #12884 #12884
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12886
[mk-app] #10987 = #12886 #12886
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12889
[mk-app] #10987 = #12889 #12889
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12891
[mk-app] #10987 = #12891 #12891
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12896
[mk-app] #10987 = #12896 #12896
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12900
[mk-app] #10987 = #12900 #12900
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12902
[mk-app] #10987 = #12902 #12902
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12906
[mk-app] #10987 = #12906 #12906
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12908
[mk-app] #10987 = #12908 #12908
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12910
[mk-app] #10987 = #12910 #12910
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12912
[mk-app] #10987 = #12912 #12912
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12905
[mk-app] #10987 = #12905 #12905
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12915
[mk-app] #10987 = #12915 #12915
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12918
[mk-app] #10987 = #12918 #12918
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12920
[mk-app] #10987 = #12920 #12920
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12922
[mk-app] #10987 = #12922 #12922
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12927
[mk-app] #10987 = #12927 #12927
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12933
[mk-app] #10987 = #12933 #12933
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12935
[mk-app] #10987 = #12935 #12935
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12937
[mk-app] #10987 = #12937 #12937
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12939
[mk-app] #10987 = #12939 #12939
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12942
[mk-app] #10987 = #12942 #12942
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12941
[mk-app] #10987 = #12941 #12941
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12950
[mk-app] #10987 = #12950 #12950
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12960
[mk-app] #10987 = #12960 #12960
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12962
[mk-app] #10987 = #12962 #12962
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12965
[mk-app] #10987 = #12965 #12965
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12973
[mk-app] #10987 = #12973 #12973
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12975
[mk-app] #10987 = #12975 #12975
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12979
[mk-app] #10987 = #12979 #12979
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12981
[mk-app] #10987 = #12981 #12981
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12983
[mk-app] #10987 = #12983 #12983
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12985
[mk-app] #10987 = #12985 #12985
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12987
[mk-app] #10987 = #12987 #12987
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12991
[mk-app] #10987 = #12991 #12991
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12996
[mk-app] #10987 = #12996 #12996
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #12998
[mk-app] #10987 = #12998 #12998
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13008
[mk-app] #10987 = #13008 #13008
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13010
[mk-app] #10987 = #13010 #13010
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13012
[mk-app] #10987 = #13012 #13012
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13014
[mk-app] #10987 = #13014 #13014
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13016
[mk-app] #10987 = #13016 #13016
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13018
[mk-app] #10987 = #13018 #13018
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13020
[mk-app] #10987 = #13020 #13020
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13022
[mk-app] #10987 = #13022 #13022
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13040
[mk-app] #10987 = #13040 #13040
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #13040
[inst-discovered] theory-solving 0x0 basic# ; #13043
[mk-app] #10987 = #13043 #13043
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #13057
[inst-discovered] theory-solving 0x0 basic# ; #13060
[mk-app] #10987 = #13060 #13060
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13064
[mk-app] #10987 = #13064 #13064
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #13064
[inst-discovered] theory-solving 0x0 basic# ; #13067
[mk-app] #10987 = #13067 #13067
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13076
[mk-app] #10987 = #13076 #13076
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10639
[mk-app] #10987 = #10639 #10639
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13078
[mk-app] #10987 = #13078 #13078
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13083
[mk-app] #10987 = #13083 #13083
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13084
[mk-app] #10987 = #13084 #13084
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13087
[mk-app] #10987 = #13087 #13087
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13098
[mk-app] #10987 = #13098 #13098
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #13098
[inst-discovered] theory-solving 0x0 basic# ; #13101
[mk-app] #10987 = #13101 #13101
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13108
[mk-app] #10987 = #13108 #13108
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13117
[mk-app] #10987 = #13117 #13117
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13120
[mk-app] #10987 = #13120 #13120
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #13120
[inst-discovered] theory-solving 0x0 basic# ; #13123
[mk-app] #10987 = #13123 #13123
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13135
[mk-app] #10987 = #13135 #13135
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #13135
[inst-discovered] theory-solving 0x0 basic# ; #13138
[mk-app] #10987 = #13138 #13138
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13141
[mk-app] #10987 = #13141 #13141
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #13141
[inst-discovered] theory-solving 0x0 basic# ; #13144
[mk-app] #10987 = #13144 #13144
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #10904
[mk-app] #10987 = #10904 #10904
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13152
[mk-app] #10987 = #13152 #13152
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13156
[mk-app] #10987 = #13156 #13156
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13158
[mk-app] #10987 = #13158 #13158
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13163
[mk-app] #10987 = #13163 #13163
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #13163
[inst-discovered] theory-solving 0x0 basic# ; #13166
[mk-app] #10987 = #13166 #13166
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13169
[mk-app] #10987 = #13169 #13169
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13171
[mk-app] #10987 = #13171 #13171
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13173
[mk-app] #10987 = #13173 #13173
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #13173
[inst-discovered] theory-solving 0x0 basic# ; #13176
[mk-app] #10987 = #13176 #13176
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13179
[mk-app] #10987 = #13179 #13179
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 not #13184
[inst-discovered] theory-solving 0x0 basic# ; #13187
[mk-app] #10987 = #13187 #13187
[instance] 0x0 #10987
[attach-enode] #10987 0
[end-of-instance]
[mk-app] #10987 or #1046 #1038
[mk-app] #10988 or #1046 #1039
[mk-app] #10989 or #1046 #1040
[mk-app] #10990 or #1046 #1041
[mk-app] #10991 or #1046 #1042
[mk-app] #10958 or #1046 #1043
[mk-app] #10959 or #1053 #1049
[mk-app] #10960 or #1053 #1050
[mk-app] #10961 or #1083 #1056
[mk-app] #10962 or #1083 #1057
[mk-app] #10894 or #1083 #1058
[mk-app] #10897 or #1083 #1059
[mk-app] #10899 or #1083 #1060
[mk-app] #10905 or #1083 #1061
[mk-app] #10906 or #1083 #1062
[mk-app] #10907 or #1083 #1063
[mk-app] #10910 or #1083 #1064
[mk-app] #10908 or #1083 #1065
[mk-app] #10911 or #1083 #1066
[mk-app] #10912 or #1083 #1067
[mk-app] #10527 or #1083 #1068
[mk-app] #10817 or #1083 #1069
[mk-app] #10820 or #1083 #1070
[mk-app] #10821 or #1083 #1071
[mk-app] #10822 or #1083 #1072
[mk-app] #10767 or #1083 #1073
[mk-app] #10768 or #1083 #1074
[mk-app] #10770 or #1083 #1075
[mk-app] #10771 or #1083 #1076
[mk-app] #10772 or #1083 #1077
[mk-app] #10734 or #1083 #1078
[mk-app] #10743 or #1083 #1079
[mk-app] #10750 or #1083 #1080
[mk-app] #10752 or #1095 #1091
[mk-app] #10754 or #1095 #1092
[mk-app] #10755 or #1116 #1098
[mk-app] #10756 or #1116 #1099
[mk-app] #10757 or #1116 #1100
[mk-app] #10758 or #1116 #1101
[mk-app] #10759 or #1116 #1102
[mk-app] #10500 or #1116 #1103
[mk-app] #10503 or #1116 #1104
[mk-app] #10689 or #1116 #1105
[mk-app] #10690 or #1116 #1106
[mk-app] #10691 or #1116 #1107
[mk-app] #10663 or #1116 #1108
[mk-app] #10665 or #1116 #1109
[mk-app] #10671 or #1116 #1110
[mk-app] #10672 or #1116 #1111
[mk-app] #10673 or #1116 #1112
[mk-app] #10630 or #1116 #1113
[mk-app] #10633 or #1125 #1119
[mk-app] #10634 or #1125 #1120
[mk-app] #10636 or #1125 #1121
[mk-app] #10635 or #1125 #1122
[mk-app] #10640 or #1135 #1128
[mk-app] #11547 or #1135 #1129
[mk-app] #11551 or #1135 #1130
[mk-app] #11557 or #1135 #1131
[mk-app] #11558 or #1135 #1132
[mk-app] #11559 or #1142 #1138
[mk-app] #11560 or #1142 #1139
[mk-app] #11562 or #1151 #1145
[mk-app] #11563 or #1151 #1146
[mk-app] #11564 or #1151 #1147
[mk-app] #10588 or #1151 #1148
[mk-app] #10590 or #1159 #1154
[mk-app] #10591 or #1159 #1155
[mk-app] #10592 or #1159 #1156
[assign] #38 justification -1: 
[assign] #42 justification -1: 
[assign] #55 justification -1: 
[assign] #62 justification -1: 
[assign] #11250 justification -1: 
[assign] #87 justification -1: 
[assign] #91 justification -1: 
[assign] #95 justification -1: 
[assign] #99 justification -1: 
[assign] #103 justification -1: 
[assign] #107 justification -1: 
[assign] #111 justification -1: 
[assign] #115 justification -1: 
[assign] #119 justification -1: 
[attach-enode] #120 0
[attach-enode] #121 0
[assign] #121 justification -1: 
[assign] #127 justification -1: 
[assign] #133 justification -1: 
[assign] #138 justification -1: 
[assign] #143 justification -1: 
[assign] #11257 justification -1: 
[assign] #160 justification -1: 
[assign] #164 justification -1: 
[assign] #169 justification -1: 
[assign] #173 justification -1: 
[assign] #183 justification -1: 
[assign] #194 justification -1: 
[assign] #202 justification -1: 
[assign] #210 justification -1: 
[assign] #218 justification -1: 
[assign] #227 justification -1: 
[assign] #235 justification -1: 
[assign] #243 justification -1: 
[assign] #251 justification -1: 
[assign] #261 justification -1: 
[assign] #268 justification -1: 
[attach-enode] #269 0
[attach-enode] #270 0
[attach-enode] #271 0
[assign] #271 justification -1: 
[attach-enode] #272 0
[attach-enode] #273 0
[attach-enode] #274 0
[attach-enode] #275 0
[assign] #275 justification -1: 
[attach-enode] #276 0
[attach-enode] #277 0
[attach-enode] #278 0
[attach-enode] #279 0
[assign] #279 justification -1: 
[attach-enode] #280 0
[attach-enode] #281 0
[attach-enode] #282 0
[attach-enode] #283 0
[assign] #283 justification -1: 
[attach-enode] #284 0
[attach-enode] #285 0
[attach-enode] #286 0
[assign] #286 justification -1: 
[attach-enode] #287 0
[attach-enode] #288 0
[attach-enode] #293 0
[attach-enode] #294 0
[assign] #294 justification -1: 
[attach-enode] #295 0
[attach-enode] #298 0
[attach-enode] #299 0
[assign] #299 justification -1: 
[attach-enode] #300 0
[attach-enode] #304 0
[attach-enode] #305 0
[assign] #305 justification -1: 
[attach-enode] #306 0
[attach-enode] #310 0
[attach-enode] #311 0
[assign] #311 justification -1: 
[attach-enode] #312 0
[attach-enode] #316 0
[attach-enode] #317 0
[assign] #317 justification -1: 
[attach-enode] #318 0
[attach-enode] #322 0
[attach-enode] #323 0
[assign] #323 justification -1: 
[attach-enode] #324 0
[attach-enode] #325 0
[assign] #325 justification -1: 
[attach-enode] #326 0
[attach-enode] #301 0
[attach-enode] #327 0
[assign] #327 justification -1: 
[attach-enode] #328 0
[attach-enode] #307 0
[attach-enode] #329 0
[assign] #329 justification -1: 
[attach-enode] #330 0
[attach-enode] #313 0
[attach-enode] #331 0
[assign] #331 justification -1: 
[attach-enode] #332 0
[attach-enode] #319 0
[attach-enode] #333 0
[assign] #333 justification -1: 
[assign] #11218 justification -1: 
[assign] #11154 justification -1: 
[assign] #11283 justification -1: 
[assign] #11535 justification -1: 
[assign] #11540 justification -1: 
[assign] #11182 justification -1: 
[assign] #11183 justification -1: 
[assign] #460 justification -1: 
[assign] #466 justification -1: 
[assign] #10995 justification -1: 
[assign] #10997 justification -1: 
[assign] #489 justification -1: 
[assign] #496 justification -1: 
[assign] #502 justification -1: 
[assign] #509 justification -1: 
[assign] #515 justification -1: 
[assign] #482 justification -1: 
[assign] #525 justification -1: 
[assign] #10998 justification -1: 
[assign] #535 justification -1: 
[assign] #540 justification -1: 
[assign] #544 justification -1: 
[assign] #550 justification -1: 
[assign] #565 justification -1: 
[assign] #572 justification -1: 
[assign] #581 justification -1: 
[assign] #590 justification -1: 
[assign] #596 justification -1: 
[assign] #613 justification -1: 
[assign] #620 justification -1: 
[assign] #629 justification -1: 
[assign] #11185 justification -1: 
[assign] #11403 justification -1: 
[assign] #11412 justification -1: 
[assign] #11372 justification -1: 
[assign] #11378 justification -1: 
[assign] #11380 justification -1: 
[assign] #11503 justification -1: 
[assign] #11505 justification -1: 
[assign] #11507 justification -1: 
[assign] #11373 justification -1: 
[assign] #11511 justification -1: 
[assign] #758 justification -1: 
[assign] #6821 justification -1: 
[assign] #1243 justification -1: 
[assign] #11129 justification -1: 
[mk-app] #11596 distinct-aux-f!!20 #794
[mk-app] #11590 unique-value!21
[attach-enode] #11590 0
[mk-app] #11583 = #11596 #11590
[attach-enode] #794 0
[attach-enode] #11596 0
[attach-enode] #11583 0
[assign] #11583 justification -1: 
[mk-app] #11578 distinct-aux-f!!20 #795
[mk-app] #11570 unique-value!22
[attach-enode] #11570 0
[mk-app] #11550 = #11578 #11570
[attach-enode] #795 0
[attach-enode] #11578 0
[attach-enode] #11550 0
[assign] #11550 justification -1: 
[mk-app] #4185 distinct-aux-f!!20 #796
[mk-app] #4618 unique-value!23
[attach-enode] #4618 0
[mk-app] #8956 = #4185 #4618
[attach-enode] #796 0
[attach-enode] #4185 0
[attach-enode] #8956 0
[assign] #8956 justification -1: 
[mk-app] #10642 distinct-aux-f!!20 #797
[mk-app] #10570 unique-value!24
[attach-enode] #10570 0
[mk-app] #10571 = #10642 #10570
[attach-enode] #797 0
[attach-enode] #10642 0
[attach-enode] #10571 0
[assign] #10571 justification -1: 
[mk-app] #10572 distinct-aux-f!!20 #798
[mk-app] #10529 unique-value!25
[attach-enode] #10529 0
[mk-app] #10530 = #10572 #10529
[attach-enode] #798 0
[attach-enode] #10572 0
[attach-enode] #10530 0
[assign] #10530 justification -1: 
[mk-app] #10531 distinct-aux-f!!20 #799
[mk-app] #10505 unique-value!26
[attach-enode] #10505 0
[mk-app] #10506 = #10531 #10505
[attach-enode] #799 0
[attach-enode] #10531 0
[attach-enode] #10506 0
[assign] #10506 justification -1: 
[mk-app] #10507 distinct-aux-f!!20 #800
[mk-app] #10483 unique-value!27
[attach-enode] #10483 0
[mk-app] #10484 = #10507 #10483
[attach-enode] #800 0
[attach-enode] #10507 0
[attach-enode] #10484 0
[assign] #10484 justification -1: 
[mk-app] #10485 distinct-aux-f!!20 #801
[mk-app] #10451 unique-value!28
[attach-enode] #10451 0
[mk-app] #10453 = #10485 #10451
[attach-enode] #801 0
[attach-enode] #10485 0
[attach-enode] #10453 0
[assign] #10453 justification -1: 
[mk-app] #10454 distinct-aux-f!!20 #802
[mk-app] #10455 unique-value!29
[attach-enode] #10455 0
[mk-app] #3755 = #10454 #10455
[attach-enode] #802 0
[attach-enode] #10454 0
[attach-enode] #3755 0
[assign] #3755 justification -1: 
[mk-app] #10434 distinct-aux-f!!20 #803
[mk-app] #10435 unique-value!30
[attach-enode] #10435 0
[mk-app] #10428 = #10434 #10435
[attach-enode] #803 0
[attach-enode] #10434 0
[attach-enode] #10428 0
[assign] #10428 justification -1: 
[mk-app] #10429 distinct-aux-f!!20 #804
[mk-app] #10422 unique-value!31
[attach-enode] #10422 0
[mk-app] #10423 = #10429 #10422
[attach-enode] #804 0
[attach-enode] #10429 0
[attach-enode] #10423 0
[assign] #10423 justification -1: 
[mk-app] #10328 distinct-aux-f!!20 #805
[mk-app] #10341 unique-value!32
[attach-enode] #10341 0
[mk-app] #10342 = #10328 #10341
[attach-enode] #805 0
[attach-enode] #10328 0
[attach-enode] #10342 0
[assign] #10342 justification -1: 
[mk-app] #10335 distinct-aux-f!!20 #806
[mk-app] #10336 unique-value!33
[attach-enode] #10336 0
[mk-app] #10329 = #10335 #10336
[attach-enode] #806 0
[attach-enode] #10335 0
[attach-enode] #10329 0
[assign] #10329 justification -1: 
[mk-app] #10330 distinct-aux-f!!20 #807
[mk-app] #10295 unique-value!34
[attach-enode] #10295 0
[mk-app] #10302 = #10330 #10295
[attach-enode] #807 0
[attach-enode] #10330 0
[attach-enode] #10302 0
[assign] #10302 justification -1: 
[mk-app] #10303 distinct-aux-f!!20 #808
[mk-app] #10296 unique-value!35
[attach-enode] #10296 0
[mk-app] #10297 = #10303 #10296
[attach-enode] #808 0
[attach-enode] #10303 0
[attach-enode] #10297 0
[assign] #10297 justification -1: 
[mk-app] #10274 distinct-aux-f!!20 #809
[mk-app] #10288 unique-value!36
[attach-enode] #10288 0
[mk-app] #10289 = #10274 #10288
[attach-enode] #809 0
[attach-enode] #10274 0
[attach-enode] #10289 0
[assign] #10289 justification -1: 
[mk-app] #10281 distinct-aux-f!!20 #810
[mk-app] #10282 unique-value!37
[attach-enode] #10282 0
[mk-app] #10275 = #10281 #10282
[attach-enode] #810 0
[attach-enode] #10281 0
[attach-enode] #10275 0
[assign] #10275 justification -1: 
[mk-app] #10276 distinct-aux-f!!20 #811
[mk-app] #10186 unique-value!38
[attach-enode] #10186 0
[mk-app] #10266 = #10276 #10186
[attach-enode] #811 0
[attach-enode] #10276 0
[attach-enode] #10266 0
[assign] #10266 justification -1: 
[mk-app] #10267 distinct-aux-f!!20 #812
[mk-app] #10260 unique-value!39
[attach-enode] #10260 0
[mk-app] #10261 = #10267 #10260
[attach-enode] #812 0
[attach-enode] #10267 0
[attach-enode] #10261 0
[assign] #10261 justification -1: 
[mk-app] #10254 distinct-aux-f!!20 #813
[mk-app] #10255 unique-value!40
[attach-enode] #10255 0
[mk-app] #10248 = #10254 #10255
[attach-enode] #813 0
[attach-enode] #10254 0
[attach-enode] #10248 0
[assign] #10248 justification -1: 
[mk-app] #10249 distinct-aux-f!!20 #814
[mk-app] #10209 unique-value!41
[attach-enode] #10209 0
[mk-app] #10242 = #10249 #10209
[attach-enode] #814 0
[attach-enode] #10249 0
[attach-enode] #10242 0
[assign] #10242 justification -1: 
[mk-app] #10243 distinct-aux-f!!20 #815
[mk-app] #10210 unique-value!42
[attach-enode] #10210 0
[mk-app] #10211 = #10243 #10210
[attach-enode] #815 0
[attach-enode] #10243 0
[attach-enode] #10211 0
[assign] #10211 justification -1: 
[mk-app] #10202 distinct-aux-f!!20 #816
[mk-app] #10203 unique-value!43
[attach-enode] #10203 0
[mk-app] #3152 = #10202 #10203
[attach-enode] #816 0
[attach-enode] #10202 0
[attach-enode] #3152 0
[assign] #3152 justification -1: 
[mk-app] #10143 distinct-aux-f!!20 #817
[mk-app] #10144 unique-value!44
[attach-enode] #10144 0
[mk-app] #10027 = #10143 #10144
[attach-enode] #817 0
[attach-enode] #10143 0
[attach-enode] #10027 0
[assign] #10027 justification -1: 
[mk-app] #10187 distinct-aux-f!!20 #818
[mk-app] #10188 unique-value!45
[attach-enode] #10188 0
[mk-app] #3815 = #10187 #10188
[attach-enode] #818 0
[attach-enode] #10187 0
[attach-enode] #3815 0
[assign] #3815 justification -1: 
[mk-app] #10179 distinct-aux-f!!20 #819
[mk-app] #10180 unique-value!46
[attach-enode] #10180 0
[mk-app] #3276 = #10179 #10180
[attach-enode] #819 0
[attach-enode] #10179 0
[attach-enode] #3276 0
[assign] #3276 justification -1: 
[mk-app] #10173 distinct-aux-f!!20 #820
[mk-app] #10174 unique-value!47
[attach-enode] #10174 0
[mk-app] #10167 = #10173 #10174
[attach-enode] #820 0
[attach-enode] #10173 0
[attach-enode] #10167 0
[assign] #10167 justification -1: 
[mk-app] #10168 distinct-aux-f!!20 #821
[mk-app] #10161 unique-value!48
[attach-enode] #10161 0
[mk-app] #10162 = #10168 #10161
[attach-enode] #821 0
[attach-enode] #10168 0
[attach-enode] #10162 0
[assign] #10162 justification -1: 
[mk-app] #10155 distinct-aux-f!!20 #822
[mk-app] #10156 unique-value!49
[attach-enode] #10156 0
[mk-app] #2612 = #10155 #10156
[attach-enode] #822 0
[attach-enode] #10155 0
[attach-enode] #2612 0
[assign] #2612 justification -1: 
[mk-app] #11004 distinct-aux-f!!20 #823
[mk-app] #10119 unique-value!50
[attach-enode] #10119 0
[mk-app] #10120 = #11004 #10119
[attach-enode] #823 0
[attach-enode] #11004 0
[attach-enode] #10120 0
[assign] #10120 justification -1: 
[mk-app] #10137 distinct-aux-f!!20 #824
[mk-app] #10138 unique-value!51
[attach-enode] #10138 0
[mk-app] #10131 = #10137 #10138
[attach-enode] #824 0
[attach-enode] #10137 0
[attach-enode] #10131 0
[assign] #10131 justification -1: 
[mk-app] #10132 distinct-aux-f!!20 #825
[mk-app] #10025 unique-value!52
[attach-enode] #10025 0
[mk-app] #10026 = #10132 #10025
[attach-enode] #825 0
[attach-enode] #10132 0
[attach-enode] #10026 0
[assign] #10026 justification -1: 
[mk-app] #3430 distinct-aux-f!!20 #826
[mk-app] #10113 unique-value!53
[attach-enode] #10113 0
[mk-app] #10114 = #3430 #10113
[attach-enode] #826 0
[attach-enode] #3430 0
[attach-enode] #10114 0
[assign] #10114 justification -1: 
[mk-app] #3393 distinct-aux-f!!20 #827
[mk-app] #10108 unique-value!54
[attach-enode] #10108 0
[mk-app] #10109 = #3393 #10108
[attach-enode] #827 0
[attach-enode] #3393 0
[attach-enode] #10109 0
[assign] #10109 justification -1: 
[mk-app] #10101 distinct-aux-f!!20 #828
[mk-app] #10102 unique-value!55
[attach-enode] #10102 0
[mk-app] #10103 = #10101 #10102
[attach-enode] #828 0
[attach-enode] #10101 0
[attach-enode] #10103 0
[assign] #10103 justification -1: 
[mk-app] #10092 distinct-aux-f!!20 #829
[mk-app] #10093 unique-value!56
[attach-enode] #10093 0
[mk-app] #10094 = #10092 #10093
[attach-enode] #829 0
[attach-enode] #10092 0
[attach-enode] #10094 0
[assign] #10094 justification -1: 
[mk-app] #3414 distinct-aux-f!!20 #830
[mk-app] #10085 unique-value!57
[attach-enode] #10085 0
[mk-app] #10086 = #3414 #10085
[attach-enode] #830 0
[attach-enode] #3414 0
[attach-enode] #10086 0
[assign] #10086 justification -1: 
[mk-app] #3375 distinct-aux-f!!20 #831
[mk-app] #10079 unique-value!58
[attach-enode] #10079 0
[mk-app] #10080 = #3375 #10079
[attach-enode] #831 0
[attach-enode] #3375 0
[attach-enode] #10080 0
[assign] #10080 justification -1: 
[mk-app] #10073 distinct-aux-f!!20 #832
[mk-app] #10074 unique-value!59
[attach-enode] #10074 0
[mk-app] #10067 = #10073 #10074
[attach-enode] #832 0
[attach-enode] #10073 0
[attach-enode] #10067 0
[assign] #10067 justification -1: 
[mk-app] #10068 distinct-aux-f!!20 #833
[mk-app] #9683 unique-value!60
[attach-enode] #9683 0
[mk-app] #10059 = #10068 #9683
[attach-enode] #833 0
[attach-enode] #10068 0
[attach-enode] #10059 0
[assign] #10059 justification -1: 
[mk-app] #10060 distinct-aux-f!!20 #834
[mk-app] #10045 unique-value!61
[attach-enode] #10045 0
[mk-app] #10046 = #10060 #10045
[attach-enode] #834 0
[attach-enode] #10060 0
[attach-enode] #10046 0
[assign] #10046 justification -1: 
[mk-app] #10047 distinct-aux-f!!20 #835
[mk-app] #10038 unique-value!62
[attach-enode] #10038 0
[mk-app] #10039 = #10047 #10038
[attach-enode] #835 0
[attach-enode] #10047 0
[attach-enode] #10039 0
[assign] #10039 justification -1: 
[mk-app] #9615 distinct-aux-f!!20 #836
[mk-app] #10032 unique-value!63
[attach-enode] #10032 0
[mk-app] #10033 = #9615 #10032
[attach-enode] #836 0
[attach-enode] #9615 0
[attach-enode] #10033 0
[assign] #10033 justification -1: 
[mk-app] #9935 distinct-aux-f!!20 #837
[mk-app] #9936 unique-value!64
[attach-enode] #9936 0
[mk-app] #9937 = #9935 #9936
[attach-enode] #837 0
[attach-enode] #9935 0
[attach-enode] #9937 0
[assign] #9937 justification -1: 
[mk-app] #11094 distinct-aux-f!!20 #838
[mk-app] #10000 unique-value!65
[attach-enode] #10000 0
[mk-app] #10001 = #11094 #10000
[attach-enode] #838 0
[attach-enode] #11094 0
[attach-enode] #10001 0
[assign] #10001 justification -1: 
[mk-app] #10002 distinct-aux-f!!20 #839
[mk-app] #9978 unique-value!66
[attach-enode] #9978 0
[mk-app] #9992 = #10002 #9978
[attach-enode] #839 0
[attach-enode] #10002 0
[attach-enode] #9992 0
[assign] #9992 justification -1: 
[mk-app] #9993 distinct-aux-f!!20 #840
[mk-app] #9985 unique-value!67
[attach-enode] #9985 0
[mk-app] #9986 = #9993 #9985
[attach-enode] #840 0
[attach-enode] #9993 0
[attach-enode] #9986 0
[assign] #9986 justification -1: 
[mk-app] #9979 distinct-aux-f!!20 #841
[mk-app] #9980 unique-value!68
[attach-enode] #9980 0
[mk-app] #9951 = #9979 #9980
[attach-enode] #841 0
[attach-enode] #9979 0
[attach-enode] #9951 0
[assign] #9951 justification -1: 
[mk-app] #9971 distinct-aux-f!!20 #842
[mk-app] #9972 unique-value!69
[attach-enode] #9972 0
[mk-app] #9943 = #9971 #9972
[attach-enode] #842 0
[attach-enode] #9971 0
[attach-enode] #9943 0
[assign] #9943 justification -1: 
[mk-app] #9965 distinct-aux-f!!20 #843
[mk-app] #9966 unique-value!70
[attach-enode] #9966 0
[mk-app] #9958 = #9965 #9966
[attach-enode] #843 0
[attach-enode] #9965 0
[attach-enode] #9958 0
[assign] #9958 justification -1: 
[mk-app] #9959 distinct-aux-f!!20 #844
[mk-app] #9952 unique-value!71
[attach-enode] #9952 0
[mk-app] #9953 = #9959 #9952
[attach-enode] #844 0
[attach-enode] #9959 0
[attach-enode] #9953 0
[assign] #9953 justification -1: 
[mk-app] #9944 distinct-aux-f!!20 #845
[mk-app] #9945 unique-value!72
[attach-enode] #9945 0
[mk-app] #9885 = #9944 #9945
[attach-enode] #845 0
[attach-enode] #9944 0
[attach-enode] #9885 0
[assign] #9885 justification -1: 
[mk-app] #9892 distinct-aux-f!!20 #846
[mk-app] #9893 unique-value!73
[attach-enode] #9893 0
[mk-app] #11093 = #9892 #9893
[attach-enode] #846 0
[attach-enode] #9892 0
[attach-enode] #11093 0
[assign] #11093 justification -1: 
[mk-app] #9846 distinct-aux-f!!20 #847
[mk-app] #9904 unique-value!74
[attach-enode] #9904 0
[mk-app] #9905 = #9846 #9904
[attach-enode] #847 0
[attach-enode] #9846 0
[attach-enode] #9905 0
[assign] #9905 justification -1: 
[mk-app] #9898 distinct-aux-f!!20 #848
[mk-app] #9899 unique-value!75
[attach-enode] #9899 0
[mk-app] #9710 = #9898 #9899
[attach-enode] #848 0
[attach-enode] #9898 0
[attach-enode] #9710 0
[assign] #9710 justification -1: 
[mk-app] #9798 distinct-aux-f!!20 #849
[mk-app] #9886 unique-value!76
[attach-enode] #9886 0
[mk-app] #9887 = #9798 #9886
[attach-enode] #849 0
[attach-enode] #9798 0
[attach-enode] #9887 0
[assign] #9887 justification -1: 
[mk-app] #9799 distinct-aux-f!!20 #850
[mk-app] #11092 unique-value!77
[attach-enode] #11092 0
[mk-app] #9719 = #9799 #11092
[attach-enode] #850 0
[attach-enode] #9799 0
[attach-enode] #9719 0
[assign] #9719 justification -1: 
[mk-app] #9878 distinct-aux-f!!20 #851
[mk-app] #9879 unique-value!78
[attach-enode] #9879 0
[mk-app] #9872 = #9878 #9879
[attach-enode] #851 0
[attach-enode] #9878 0
[attach-enode] #9872 0
[assign] #9872 justification -1: 
[mk-app] #9873 distinct-aux-f!!20 #852
[mk-app] #9866 unique-value!79
[attach-enode] #9866 0
[mk-app] #9867 = #9873 #9866
[attach-enode] #852 0
[attach-enode] #9873 0
[attach-enode] #9867 0
[assign] #9867 justification -1: 
[mk-app] #9859 distinct-aux-f!!20 #853
[mk-app] #9860 unique-value!80
[attach-enode] #9860 0
[mk-app] #9861 = #9859 #9860
[attach-enode] #853 0
[attach-enode] #9859 0
[attach-enode] #9861 0
[assign] #9861 justification -1: 
[mk-app] #9847 distinct-aux-f!!20 #854
[mk-app] #9848 unique-value!81
[attach-enode] #9848 0
[mk-app] #9826 = #9847 #9848
[attach-enode] #854 0
[attach-enode] #9847 0
[attach-enode] #9826 0
[assign] #9826 justification -1: 
[mk-app] #9839 distinct-aux-f!!20 #855
[mk-app] #9840 unique-value!82
[attach-enode] #9840 0
[mk-app] #9765 = #9839 #9840
[attach-enode] #855 0
[attach-enode] #9839 0
[attach-enode] #9765 0
[assign] #9765 justification -1: 
[mk-app] #9833 distinct-aux-f!!20 #856
[mk-app] #9834 unique-value!83
[attach-enode] #9834 0
[mk-app] #9827 = #9833 #9834
[attach-enode] #856 0
[attach-enode] #9833 0
[attach-enode] #9827 0
[assign] #9827 justification -1: 
[mk-app] #9828 distinct-aux-f!!20 #857
[mk-app] #9818 unique-value!84
[attach-enode] #9818 0
[mk-app] #9819 = #9828 #9818
[attach-enode] #857 0
[attach-enode] #9828 0
[attach-enode] #9819 0
[assign] #9819 justification -1: 
[mk-app] #9812 distinct-aux-f!!20 #858
[mk-app] #9813 unique-value!85
[attach-enode] #9813 0
[mk-app] #9805 = #9812 #9813
[attach-enode] #858 0
[attach-enode] #9812 0
[attach-enode] #9805 0
[assign] #9805 justification -1: 
[mk-app] #9806 distinct-aux-f!!20 #859
[mk-app] #9807 unique-value!86
[attach-enode] #9807 0
[mk-app] #9623 = #9806 #9807
[attach-enode] #859 0
[attach-enode] #9806 0
[attach-enode] #9623 0
[assign] #9623 justification -1: 
[mk-app] #9624 distinct-aux-f!!20 #860
[mk-app] #9792 unique-value!87
[attach-enode] #9792 0
[mk-app] #9793 = #9624 #9792
[attach-enode] #860 0
[attach-enode] #9624 0
[attach-enode] #9793 0
[assign] #9793 justification -1: 
[mk-app] #9785 distinct-aux-f!!20 #861
[mk-app] #9786 unique-value!88
[attach-enode] #9786 0
[mk-app] #9779 = #9785 #9786
[attach-enode] #861 0
[attach-enode] #9785 0
[attach-enode] #9779 0
[assign] #9779 justification -1: 
[mk-app] #9780 distinct-aux-f!!20 #862
[mk-app] #9773 unique-value!89
[attach-enode] #9773 0
[mk-app] #9774 = #9780 #9773
[attach-enode] #862 0
[attach-enode] #9780 0
[attach-enode] #9774 0
[assign] #9774 justification -1: 
[mk-app] #9751 distinct-aux-f!!20 #863
[mk-app] #9752 unique-value!90
[attach-enode] #9752 0
[mk-app] #9766 = #9751 #9752
[attach-enode] #863 0
[attach-enode] #9751 0
[attach-enode] #9766 0
[assign] #9766 justification -1: 
[mk-app] #9767 distinct-aux-f!!20 #864
[mk-app] #9757 unique-value!91
[attach-enode] #9757 0
[mk-app] #9758 = #9767 #9757
[attach-enode] #864 0
[attach-enode] #9767 0
[attach-enode] #9758 0
[assign] #9758 justification -1: 
[mk-app] #9711 distinct-aux-f!!20 #865
[mk-app] #9712 unique-value!92
[attach-enode] #9712 0
[mk-app] #9720 = #9711 #9712
[attach-enode] #865 0
[attach-enode] #9711 0
[attach-enode] #9720 0
[assign] #9720 justification -1: 
[mk-app] #9721 distinct-aux-f!!20 #866
[mk-app] #9625 unique-value!93
[attach-enode] #9625 0
[mk-app] #11091 = #9721 #9625
[attach-enode] #866 0
[attach-enode] #9721 0
[attach-enode] #11091 0
[assign] #11091 justification -1: 
[mk-app] #9684 distinct-aux-f!!20 #867
[mk-app] #9685 unique-value!94
[attach-enode] #9685 0
[mk-app] #9588 = #9684 #9685
[attach-enode] #867 0
[attach-enode] #9684 0
[attach-enode] #9588 0
[assign] #9588 justification -1: 
[mk-app] #9668 distinct-aux-f!!20 #868
[mk-app] #9669 unique-value!95
[attach-enode] #9669 0
[mk-app] #9662 = #9668 #9669
[attach-enode] #868 0
[attach-enode] #9668 0
[attach-enode] #9662 0
[assign] #9662 justification -1: 
[mk-app] #9663 distinct-aux-f!!20 #869
[mk-app] #9647 unique-value!96
[attach-enode] #9647 0
[mk-app] #9656 = #9663 #9647
[attach-enode] #869 0
[attach-enode] #9663 0
[attach-enode] #9656 0
[assign] #9656 justification -1: 
[mk-app] #9657 distinct-aux-f!!20 #870
[mk-app] #9648 unique-value!97
[attach-enode] #9648 0
[mk-app] #9649 = #9657 #9648
[attach-enode] #870 0
[attach-enode] #9657 0
[attach-enode] #9649 0
[assign] #9649 justification -1: 
[mk-app] #9631 distinct-aux-f!!20 #871
[mk-app] #9632 unique-value!98
[attach-enode] #9632 0
[mk-app] #9633 = #9631 #9632
[attach-enode] #871 0
[attach-enode] #9631 0
[attach-enode] #9633 0
[assign] #9633 justification -1: 
[mk-app] #9022 distinct-aux-f!!20 #872
[mk-app] #9023 unique-value!99
[attach-enode] #9023 0
[mk-app] #9024 = #9022 #9023
[attach-enode] #872 0
[attach-enode] #9022 0
[attach-enode] #9024 0
[assign] #9024 justification -1: 
[mk-app] #9026 distinct-aux-f!!20 #873
[mk-app] #9616 unique-value!100
[attach-enode] #9616 0
[mk-app] #9617 = #9026 #9616
[attach-enode] #873 0
[attach-enode] #9026 0
[attach-enode] #9617 0
[assign] #9617 justification -1: 
[mk-app] #9595 distinct-aux-f!!20 #874
[mk-app] #9596 unique-value!101
[attach-enode] #9596 0
[mk-app] #9589 = #9595 #9596
[attach-enode] #874 0
[attach-enode] #9595 0
[attach-enode] #9589 0
[assign] #9589 justification -1: 
[mk-app] #9590 distinct-aux-f!!20 #875
[mk-app] #9569 unique-value!102
[attach-enode] #9569 0
[mk-app] #9570 = #9590 #9569
[attach-enode] #875 0
[attach-enode] #9590 0
[attach-enode] #9570 0
[assign] #9570 justification -1: 
[mk-app] #9563 distinct-aux-f!!20 #876
[mk-app] #9564 unique-value!103
[attach-enode] #9564 0
[mk-app] #9557 = #9563 #9564
[attach-enode] #876 0
[attach-enode] #9563 0
[attach-enode] #9557 0
[assign] #9557 justification -1: 
[mk-app] #9558 distinct-aux-f!!20 #877
[mk-app] #3355 unique-value!104
[attach-enode] #3355 0
[mk-app] #9545 = #9558 #3355
[attach-enode] #877 0
[attach-enode] #9558 0
[attach-enode] #9545 0
[assign] #9545 justification -1: 
[mk-app] #9546 distinct-aux-f!!20 #878
[mk-app] #3244 unique-value!105
[attach-enode] #3244 0
[mk-app] #9539 = #9546 #3244
[attach-enode] #878 0
[attach-enode] #9546 0
[attach-enode] #9539 0
[assign] #9539 justification -1: 
[mk-app] #9540 distinct-aux-f!!20 #879
[mk-app] #9520 unique-value!106
[attach-enode] #9520 0
[mk-app] #9521 = #9540 #9520
[attach-enode] #879 0
[attach-enode] #9540 0
[attach-enode] #9521 0
[assign] #9521 justification -1: 
[mk-app] #9514 distinct-aux-f!!20 #880
[mk-app] #9515 unique-value!107
[attach-enode] #9515 0
[mk-app] #9481 = #9514 #9515
[attach-enode] #880 0
[attach-enode] #9514 0
[attach-enode] #9481 0
[assign] #9481 justification -1: 
[mk-app] #9482 distinct-aux-f!!20 #881
[mk-app] #9483 unique-value!108
[attach-enode] #9483 0
[mk-app] #9484 = #9482 #9483
[attach-enode] #881 0
[attach-enode] #9482 0
[attach-enode] #9484 0
[assign] #9484 justification -1: 
[mk-app] #9486 distinct-aux-f!!20 #882
[mk-app] #9444 unique-value!109
[attach-enode] #9444 0
[mk-app] #9447 = #9486 #9444
[attach-enode] #882 0
[attach-enode] #9486 0
[attach-enode] #9447 0
[assign] #9447 justification -1: 
[mk-app] #9448 distinct-aux-f!!20 #883
[mk-app] #9450 unique-value!110
[attach-enode] #9450 0
[mk-app] #9449 = #9448 #9450
[attach-enode] #883 0
[attach-enode] #9448 0
[attach-enode] #9449 0
[assign] #9449 justification -1: 
[mk-app] #9441 distinct-aux-f!!20 #884
[mk-app] #11514 unique-value!111
[attach-enode] #11514 0
[mk-app] #11519 = #9441 #11514
[attach-enode] #884 0
[attach-enode] #9441 0
[attach-enode] #11519 0
[assign] #11519 justification -1: 
[mk-app] #11523 distinct-aux-f!!20 #885
[mk-app] #11524 unique-value!112
[attach-enode] #11524 0
[mk-app] #11525 = #11523 #11524
[attach-enode] #885 0
[attach-enode] #11523 0
[attach-enode] #11525 0
[assign] #11525 justification -1: 
[mk-app] #11526 distinct-aux-f!!20 #886
[mk-app] #11528 unique-value!113
[attach-enode] #11528 0
[mk-app] #11529 = #11526 #11528
[attach-enode] #886 0
[attach-enode] #11526 0
[attach-enode] #11529 0
[assign] #11529 justification -1: 
[mk-app] #11530 distinct-aux-f!!20 #887
[mk-app] #11527 unique-value!114
[attach-enode] #11527 0
[mk-app] #9415 = #11530 #11527
[attach-enode] #887 0
[attach-enode] #11530 0
[attach-enode] #9415 0
[assign] #9415 justification -1: 
[mk-app] #9416 distinct-aux-f!!20 #888
[mk-app] #9417 unique-value!115
[attach-enode] #9417 0
[mk-app] #9419 = #9416 #9417
[attach-enode] #888 0
[attach-enode] #9416 0
[attach-enode] #9419 0
[assign] #9419 justification -1: 
[mk-app] #9010 distinct-aux-f!!20 #889
[mk-app] #9011 unique-value!116
[attach-enode] #9011 0
[mk-app] #9012 = #9010 #9011
[attach-enode] #889 0
[attach-enode] #9010 0
[attach-enode] #9012 0
[assign] #9012 justification -1: 
[mk-app] #8577 distinct-aux-f!!20 #890
[mk-app] #11090 unique-value!117
[attach-enode] #11090 0
[mk-app] #8487 = #8577 #11090
[attach-enode] #890 0
[attach-enode] #8577 0
[attach-enode] #8487 0
[assign] #8487 justification -1: 
[mk-app] #8934 distinct-aux-f!!20 #891
[mk-app] #9004 unique-value!118
[attach-enode] #9004 0
[mk-app] #9007 = #8934 #9004
[attach-enode] #891 0
[attach-enode] #8934 0
[attach-enode] #9007 0
[assign] #9007 justification -1: 
[mk-app] #9008 distinct-aux-f!!20 #892
[mk-app] #9009 unique-value!119
[attach-enode] #9009 0
[mk-app] #8935 = #9008 #9009
[attach-enode] #892 0
[attach-enode] #9008 0
[attach-enode] #8935 0
[assign] #8935 justification -1: 
[mk-app] #8937 distinct-aux-f!!20 #893
[mk-app] #8951 unique-value!120
[attach-enode] #8951 0
[mk-app] #8952 = #8937 #8951
[attach-enode] #893 0
[attach-enode] #8937 0
[attach-enode] #8952 0
[assign] #8952 justification -1: 
[mk-app] #8954 distinct-aux-f!!20 #894
[mk-app] #8953 unique-value!121
[attach-enode] #8953 0
[mk-app] #8950 = #8954 #8953
[attach-enode] #894 0
[attach-enode] #8954 0
[attach-enode] #8950 0
[assign] #8950 justification -1: 
[mk-app] #11480 distinct-aux-f!!20 #895
[mk-app] #11491 unique-value!122
[attach-enode] #11491 0
[mk-app] #11492 = #11480 #11491
[attach-enode] #895 0
[attach-enode] #11480 0
[attach-enode] #11492 0
[assign] #11492 justification -1: 
[mk-app] #11493 distinct-aux-f!!20 #896
[mk-app] #11494 unique-value!123
[attach-enode] #11494 0
[mk-app] #11495 = #11493 #11494
[attach-enode] #896 0
[attach-enode] #11493 0
[attach-enode] #11495 0
[assign] #11495 justification -1: 
[mk-app] #11497 distinct-aux-f!!20 #897
[mk-app] #11498 unique-value!124
[attach-enode] #11498 0
[mk-app] #11499 = #11497 #11498
[attach-enode] #897 0
[attach-enode] #11497 0
[attach-enode] #11499 0
[assign] #11499 justification -1: 
[mk-app] #11485 distinct-aux-f!!20 #898
[mk-app] #8466 unique-value!125
[attach-enode] #8466 0
[mk-app] #8467 = #11485 #8466
[attach-enode] #898 0
[attach-enode] #11485 0
[attach-enode] #8467 0
[assign] #8467 justification -1: 
[mk-app] #8479 distinct-aux-f!!20 #899
[mk-app] #8926 unique-value!126
[attach-enode] #8926 0
[mk-app] #8927 = #8479 #8926
[attach-enode] #899 0
[attach-enode] #8479 0
[attach-enode] #8927 0
[assign] #8927 justification -1: 
[mk-app] #8371 distinct-aux-f!!20 #900
[mk-app] #8372 unique-value!127
[attach-enode] #8372 0
[mk-app] #8909 = #8371 #8372
[attach-enode] #900 0
[attach-enode] #8371 0
[attach-enode] #8909 0
[assign] #8909 justification -1: 
[mk-app] #8915 distinct-aux-f!!20 #901
[mk-app] #8918 unique-value!128
[attach-enode] #8918 0
[mk-app] #8923 = #8915 #8918
[attach-enode] #901 0
[attach-enode] #8915 0
[attach-enode] #8923 0
[assign] #8923 justification -1: 
[mk-app] #8924 distinct-aux-f!!20 #902
[mk-app] #8925 unique-value!129
[attach-enode] #8925 0
[mk-app] #8856 = #8924 #8925
[attach-enode] #902 0
[attach-enode] #8924 0
[attach-enode] #8856 0
[assign] #8856 justification -1: 
[mk-app] #8857 distinct-aux-f!!20 #903
[mk-app] #8548 unique-value!130
[attach-enode] #8548 0
[mk-app] #8576 = #8857 #8548
[attach-enode] #903 0
[attach-enode] #8857 0
[attach-enode] #8576 0
[assign] #8576 justification -1: 
[mk-app] #8831 distinct-aux-f!!20 #904
[mk-app] #8832 unique-value!131
[attach-enode] #8832 0
[mk-app] #8833 = #8831 #8832
[attach-enode] #904 0
[attach-enode] #8831 0
[attach-enode] #8833 0
[assign] #8833 justification -1: 
[mk-app] #8834 distinct-aux-f!!20 #905
[mk-app] #8835 unique-value!132
[attach-enode] #8835 0
[mk-app] #8851 = #8834 #8835
[attach-enode] #905 0
[attach-enode] #8834 0
[attach-enode] #8851 0
[assign] #8851 justification -1: 
[mk-app] #8852 distinct-aux-f!!20 #906
[mk-app] #8853 unique-value!133
[attach-enode] #8853 0
[mk-app] #8854 = #8852 #8853
[attach-enode] #906 0
[attach-enode] #8852 0
[attach-enode] #8854 0
[assign] #8854 justification -1: 
[mk-app] #8837 distinct-aux-f!!20 #907
[mk-app] #8708 unique-value!134
[attach-enode] #8708 0
[mk-app] #8709 = #8837 #8708
[attach-enode] #907 0
[attach-enode] #8837 0
[attach-enode] #8709 0
[assign] #8709 justification -1: 
[mk-app] #8710 distinct-aux-f!!20 #908
[mk-app] #8474 unique-value!135
[attach-enode] #8474 0
[mk-app] #8476 = #8710 #8474
[attach-enode] #908 0
[attach-enode] #8710 0
[attach-enode] #8476 0
[assign] #8476 justification -1: 
[mk-app] #8477 distinct-aux-f!!20 #909
[mk-app] #8450 unique-value!136
[attach-enode] #8450 0
[mk-app] #8455 = #8477 #8450
[attach-enode] #909 0
[attach-enode] #8477 0
[attach-enode] #8455 0
[assign] #8455 justification -1: 
[mk-app] #8443 distinct-aux-f!!20 #910
[mk-app] #8460 unique-value!137
[attach-enode] #8460 0
[mk-app] #11046 = #8443 #8460
[attach-enode] #910 0
[attach-enode] #8443 0
[attach-enode] #11046 0
[assign] #11046 justification -1: 
[mk-app] #11047 distinct-aux-f!!20 #911
[mk-app] #11048 unique-value!138
[attach-enode] #11048 0
[mk-app] #11049 = #11047 #11048
[attach-enode] #911 0
[attach-enode] #11047 0
[attach-enode] #11049 0
[assign] #11049 justification -1: 
[mk-app] #8359 distinct-aux-f!!20 #912
[mk-app] #8360 unique-value!139
[attach-enode] #8360 0
[mk-app] #7485 = #8359 #8360
[attach-enode] #912 0
[attach-enode] #8359 0
[attach-enode] #7485 0
[assign] #7485 justification -1: 
[mk-app] #7486 distinct-aux-f!!20 #913
[mk-app] #11038 unique-value!140
[attach-enode] #11038 0
[mk-app] #7479 = #7486 #11038
[attach-enode] #913 0
[attach-enode] #7486 0
[attach-enode] #7479 0
[assign] #7479 justification -1: 
[mk-app] #7482 distinct-aux-f!!20 #914
[mk-app] #8354 unique-value!141
[attach-enode] #8354 0
[mk-app] #8355 = #7482 #8354
[attach-enode] #914 0
[attach-enode] #7482 0
[attach-enode] #8355 0
[assign] #8355 justification -1: 
[mk-app] #8356 distinct-aux-f!!20 #915
[mk-app] #8357 unique-value!142
[attach-enode] #8357 0
[mk-app] #7483 = #8356 #8357
[attach-enode] #915 0
[attach-enode] #8356 0
[attach-enode] #7483 0
[assign] #7483 justification -1: 
[mk-app] #7484 distinct-aux-f!!20 #916
[mk-app] #8317 unique-value!143
[attach-enode] #8317 0
[mk-app] #8318 = #7484 #8317
[attach-enode] #916 0
[attach-enode] #7484 0
[attach-enode] #8318 0
[assign] #8318 justification -1: 
[mk-app] #8319 distinct-aux-f!!20 #917
[mk-app] #8320 unique-value!144
[attach-enode] #8320 0
[mk-app] #8321 = #8319 #8320
[attach-enode] #917 0
[attach-enode] #8319 0
[attach-enode] #8321 0
[assign] #8321 justification -1: 
[mk-app] #8322 distinct-aux-f!!20 #918
[mk-app] #8324 unique-value!145
[attach-enode] #8324 0
[mk-app] #8125 = #8322 #8324
[attach-enode] #918 0
[attach-enode] #8322 0
[attach-enode] #8125 0
[assign] #8125 justification -1: 
[mk-app] #8126 distinct-aux-f!!20 #919
[mk-app] #8127 unique-value!146
[attach-enode] #8127 0
[mk-app] #8129 = #8126 #8127
[attach-enode] #919 0
[attach-enode] #8126 0
[attach-enode] #8129 0
[assign] #8129 justification -1: 
[mk-app] #8002 distinct-aux-f!!20 #920
[mk-app] #8107 unique-value!147
[attach-enode] #8107 0
[mk-app] #8108 = #8002 #8107
[attach-enode] #920 0
[attach-enode] #8002 0
[attach-enode] #8108 0
[assign] #8108 justification -1: 
[mk-app] #8110 distinct-aux-f!!20 #921
[mk-app] #8016 unique-value!148
[attach-enode] #8016 0
[mk-app] #8017 = #8110 #8016
[attach-enode] #921 0
[attach-enode] #8110 0
[attach-enode] #8017 0
[assign] #8017 justification -1: 
[mk-app] #8019 distinct-aux-f!!20 #922
[mk-app] #8003 unique-value!149
[attach-enode] #8003 0
[mk-app] #8004 = #8019 #8003
[attach-enode] #922 0
[attach-enode] #8019 0
[attach-enode] #8004 0
[assign] #8004 justification -1: 
[mk-app] #8006 distinct-aux-f!!20 #923
[mk-app] #7914 unique-value!150
[attach-enode] #7914 0
[mk-app] #7910 = #8006 #7914
[attach-enode] #923 0
[attach-enode] #8006 0
[attach-enode] #7910 0
[assign] #7910 justification -1: 
[mk-app] #7911 distinct-aux-f!!20 #924
[mk-app] #7912 unique-value!151
[attach-enode] #7912 0
[mk-app] #7913 = #7911 #7912
[attach-enode] #924 0
[attach-enode] #7911 0
[attach-enode] #7913 0
[assign] #7913 justification -1: 
[mk-app] #7915 distinct-aux-f!!20 #925
[mk-app] #7916 unique-value!152
[attach-enode] #7916 0
[mk-app] #7918 = #7915 #7916
[attach-enode] #925 0
[attach-enode] #7915 0
[attach-enode] #7918 0
[assign] #7918 justification -1: 
[mk-app] #7827 distinct-aux-f!!20 #926
[mk-app] #7880 unique-value!153
[attach-enode] #7880 0
[mk-app] #7881 = #7827 #7880
[attach-enode] #926 0
[attach-enode] #7827 0
[attach-enode] #7881 0
[assign] #7881 justification -1: 
[mk-app] #7883 distinct-aux-f!!20 #927
[mk-app] #7865 unique-value!154
[attach-enode] #7865 0
[mk-app] #7866 = #7883 #7865
[attach-enode] #927 0
[attach-enode] #7883 0
[attach-enode] #7866 0
[assign] #7866 justification -1: 
[mk-app] #7867 distinct-aux-f!!20 #928
[mk-app] #7828 unique-value!155
[attach-enode] #7828 0
[mk-app] #7829 = #7867 #7828
[attach-enode] #928 0
[attach-enode] #7867 0
[attach-enode] #7829 0
[assign] #7829 justification -1: 
[mk-app] #7831 distinct-aux-f!!20 #929
[mk-app] #7802 unique-value!156
[attach-enode] #7802 0
[mk-app] #7803 = #7831 #7802
[attach-enode] #929 0
[attach-enode] #7831 0
[attach-enode] #7803 0
[assign] #7803 justification -1: 
[mk-app] #7804 distinct-aux-f!!20 #930
[mk-app] #7806 unique-value!157
[attach-enode] #7806 0
[mk-app] #7748 = #7804 #7806
[attach-enode] #930 0
[attach-enode] #7804 0
[attach-enode] #7748 0
[assign] #7748 justification -1: 
[mk-app] #7788 distinct-aux-f!!20 #931
[mk-app] #7789 unique-value!158
[attach-enode] #7789 0
[mk-app] #7791 = #7788 #7789
[attach-enode] #931 0
[attach-enode] #7788 0
[attach-enode] #7791 0
[assign] #7791 justification -1: 
[mk-app] #7775 distinct-aux-f!!20 #932
[mk-app] #7776 unique-value!159
[attach-enode] #7776 0
[mk-app] #7778 = #7775 #7776
[attach-enode] #932 0
[attach-enode] #7775 0
[attach-enode] #7778 0
[assign] #7778 justification -1: 
[mk-app] #7762 distinct-aux-f!!20 #933
[mk-app] #7763 unique-value!160
[attach-enode] #7763 0
[mk-app] #7765 = #7762 #7763
[attach-enode] #933 0
[attach-enode] #7762 0
[attach-enode] #7765 0
[assign] #7765 justification -1: 
[mk-app] #7749 distinct-aux-f!!20 #934
[mk-app] #7750 unique-value!161
[attach-enode] #7750 0
[mk-app] #7752 = #7749 #7750
[attach-enode] #934 0
[attach-enode] #7749 0
[attach-enode] #7752 0
[assign] #7752 justification -1: 
[mk-app] #11455 distinct-aux-f!!20 #935
[mk-app] #11458 unique-value!162
[attach-enode] #11458 0
[mk-app] #7714 = #11455 #11458
[attach-enode] #935 0
[attach-enode] #11455 0
[attach-enode] #7714 0
[assign] #7714 justification -1: 
[mk-app] #11456 distinct-aux-f!!20 #936
[mk-app] #11457 unique-value!163
[attach-enode] #11457 0
[mk-app] #11459 = #11456 #11457
[attach-enode] #936 0
[attach-enode] #11456 0
[attach-enode] #11459 0
[assign] #11459 justification -1: 
[mk-app] #11460 distinct-aux-f!!20 #937
[mk-app] #11461 unique-value!164
[attach-enode] #11461 0
[mk-app] #11462 = #11460 #11461
[attach-enode] #937 0
[attach-enode] #11460 0
[attach-enode] #11462 0
[assign] #11462 justification -1: 
[mk-app] #11419 distinct-aux-f!!20 #938
[mk-app] #11434 unique-value!165
[attach-enode] #11434 0
[mk-app] #11435 = #11419 #11434
[attach-enode] #938 0
[attach-enode] #11419 0
[attach-enode] #11435 0
[assign] #11435 justification -1: 
[mk-app] #11443 distinct-aux-f!!20 #939
[mk-app] #11438 unique-value!166
[attach-enode] #11438 0
[mk-app] #11439 = #11443 #11438
[attach-enode] #939 0
[attach-enode] #11443 0
[attach-enode] #11439 0
[assign] #11439 justification -1: 
[mk-app] #11440 distinct-aux-f!!20 #940
[mk-app] #11441 unique-value!167
[attach-enode] #11441 0
[mk-app] #11448 = #11440 #11441
[attach-enode] #940 0
[attach-enode] #11440 0
[attach-enode] #11448 0
[assign] #11448 justification -1: 
[mk-app] #11449 distinct-aux-f!!20 #941
[mk-app] #11450 unique-value!168
[attach-enode] #11450 0
[mk-app] #11451 = #11449 #11450
[attach-enode] #941 0
[attach-enode] #11449 0
[attach-enode] #11451 0
[assign] #11451 justification -1: 
[mk-app] #7669 distinct-aux-f!!20 #942
[mk-app] #7670 unique-value!169
[attach-enode] #7670 0
[mk-app] #7672 = #7669 #7670
[attach-enode] #942 0
[attach-enode] #7669 0
[attach-enode] #7672 0
[assign] #7672 justification -1: 
[mk-app] #7671 distinct-aux-f!!20 #943
[mk-app] #7668 unique-value!170
[attach-enode] #7668 0
[mk-app] #11414 = #7671 #7668
[attach-enode] #943 0
[attach-enode] #7671 0
[attach-enode] #11414 0
[assign] #11414 justification -1: 
[mk-app] #11423 distinct-aux-f!!20 #944
[mk-app] #11426 unique-value!171
[attach-enode] #11426 0
[mk-app] #11427 = #11423 #11426
[attach-enode] #944 0
[attach-enode] #11423 0
[attach-enode] #11427 0
[assign] #11427 justification -1: 
[mk-app] #11428 distinct-aux-f!!20 #945
[mk-app] #11429 unique-value!172
[attach-enode] #11429 0
[mk-app] #11431 = #11428 #11429
[attach-enode] #945 0
[attach-enode] #11428 0
[attach-enode] #11431 0
[assign] #11431 justification -1: 
[mk-app] #11432 distinct-aux-f!!20 #946
[mk-app] #11433 unique-value!173
[attach-enode] #11433 0
[mk-app] #11430 = #11432 #11433
[attach-enode] #946 0
[attach-enode] #11432 0
[attach-enode] #11430 0
[assign] #11430 justification -1: 
[mk-app] #7633 distinct-aux-f!!20 #947
[mk-app] #7634 unique-value!174
[attach-enode] #7634 0
[mk-app] #7635 = #7633 #7634
[attach-enode] #947 0
[attach-enode] #7633 0
[attach-enode] #7635 0
[assign] #7635 justification -1: 
[mk-app] #7592 distinct-aux-f!!20 #948
[mk-app] #7598 unique-value!175
[attach-enode] #7598 0
[mk-app] #7599 = #7592 #7598
[attach-enode] #948 0
[attach-enode] #7592 0
[attach-enode] #7599 0
[assign] #7599 justification -1: 
[mk-app] #7600 distinct-aux-f!!20 #949
[mk-app] #7566 unique-value!176
[attach-enode] #7566 0
[mk-app] #7567 = #7600 #7566
[attach-enode] #949 0
[attach-enode] #7600 0
[attach-enode] #7567 0
[assign] #7567 justification -1: 
[mk-app] #7568 distinct-aux-f!!20 #950
[mk-app] #7494 unique-value!177
[attach-enode] #7494 0
[mk-app] #7495 = #7568 #7494
[attach-enode] #950 0
[attach-enode] #7568 0
[attach-enode] #7495 0
[assign] #7495 justification -1: 
[mk-app] #7496 distinct-aux-f!!20 #951
[mk-app] #7497 unique-value!178
[attach-enode] #7497 0
[mk-app] #7498 = #7496 #7497
[attach-enode] #951 0
[attach-enode] #7496 0
[attach-enode] #7498 0
[assign] #7498 justification -1: 
[mk-app] #7216 distinct-aux-f!!20 #952
[mk-app] #7217 unique-value!179
[attach-enode] #7217 0
[mk-app] #7209 = #7216 #7217
[attach-enode] #952 0
[attach-enode] #7216 0
[attach-enode] #7209 0
[assign] #7209 justification -1: 
[mk-app] #7451 distinct-aux-f!!20 #953
[mk-app] #7454 unique-value!180
[attach-enode] #7454 0
[mk-app] #7455 = #7451 #7454
[attach-enode] #953 0
[attach-enode] #7451 0
[attach-enode] #7455 0
[assign] #7455 justification -1: 
[mk-app] #7457 distinct-aux-f!!20 #954
[mk-app] #7456 unique-value!181
[attach-enode] #7456 0
[mk-app] #7449 = #7457 #7456
[attach-enode] #954 0
[attach-enode] #7457 0
[attach-enode] #7449 0
[assign] #7449 justification -1: 
[mk-app] #7458 distinct-aux-f!!20 #955
[mk-app] #11381 unique-value!182
[attach-enode] #11381 0
[mk-app] #11385 = #7458 #11381
[attach-enode] #955 0
[attach-enode] #7458 0
[attach-enode] #11385 0
[assign] #11385 justification -1: 
[mk-app] #11389 distinct-aux-f!!20 #956
[mk-app] #11390 unique-value!183
[attach-enode] #11390 0
[mk-app] #11391 = #11389 #11390
[attach-enode] #956 0
[attach-enode] #11389 0
[attach-enode] #11391 0
[assign] #11391 justification -1: 
[mk-app] #11392 distinct-aux-f!!20 #957
[mk-app] #11393 unique-value!184
[attach-enode] #11393 0
[mk-app] #11395 = #11392 #11393
[attach-enode] #957 0
[attach-enode] #11392 0
[attach-enode] #11395 0
[assign] #11395 justification -1: 
[mk-app] #11396 distinct-aux-f!!20 #958
[mk-app] #11397 unique-value!185
[attach-enode] #11397 0
[mk-app] #7323 = #11396 #11397
[attach-enode] #958 0
[attach-enode] #11396 0
[attach-enode] #7323 0
[assign] #7323 justification -1: 
[mk-app] #7324 distinct-aux-f!!20 #959
[mk-app] #7326 unique-value!186
[attach-enode] #7326 0
[mk-app] #7327 = #7324 #7326
[attach-enode] #959 0
[attach-enode] #7324 0
[attach-enode] #7327 0
[assign] #7327 justification -1: 
[mk-app] #7328 distinct-aux-f!!20 #960
[mk-app] #7271 unique-value!187
[attach-enode] #7271 0
[mk-app] #7272 = #7328 #7271
[attach-enode] #960 0
[attach-enode] #7328 0
[attach-enode] #7272 0
[assign] #7272 justification -1: 
[mk-app] #7273 distinct-aux-f!!20 #961
[mk-app] #7274 unique-value!188
[attach-enode] #7274 0
[mk-app] #7275 = #7273 #7274
[attach-enode] #961 0
[attach-enode] #7273 0
[attach-enode] #7275 0
[assign] #7275 justification -1: 
[mk-app] #7276 distinct-aux-f!!20 #962
[mk-app] #7277 unique-value!189
[attach-enode] #7277 0
[mk-app] #6987 = #7276 #7277
[attach-enode] #962 0
[attach-enode] #7276 0
[attach-enode] #6987 0
[assign] #6987 justification -1: 
[mk-app] #6988 distinct-aux-f!!20 #963
[mk-app] #6989 unique-value!190
[attach-enode] #6989 0
[mk-app] #6990 = #6988 #6989
[attach-enode] #963 0
[attach-enode] #6988 0
[attach-enode] #6990 0
[assign] #6990 justification -1: 
[mk-app] #7144 distinct-aux-f!!20 #964
[mk-app] #7146 unique-value!191
[attach-enode] #7146 0
[mk-app] #7147 = #7144 #7146
[attach-enode] #964 0
[attach-enode] #7144 0
[attach-enode] #7147 0
[assign] #7147 justification -1: 
[mk-app] #7149 distinct-aux-f!!20 #965
[mk-app] #7151 unique-value!192
[attach-enode] #7151 0
[mk-app] #7152 = #7149 #7151
[attach-enode] #965 0
[attach-enode] #7149 0
[attach-enode] #7152 0
[assign] #7152 justification -1: 
[mk-app] #7153 distinct-aux-f!!20 #966
[mk-app] #7155 unique-value!193
[attach-enode] #7155 0
[mk-app] #7095 = #7153 #7155
[attach-enode] #966 0
[attach-enode] #7153 0
[attach-enode] #7095 0
[assign] #7095 justification -1: 
[mk-app] #7097 distinct-aux-f!!20 #967
[mk-app] #7098 unique-value!194
[attach-enode] #7098 0
[mk-app] #7100 = #7097 #7098
[attach-enode] #967 0
[attach-enode] #7097 0
[attach-enode] #7100 0
[assign] #7100 justification -1: 
[mk-app] #7102 distinct-aux-f!!20 #968
[mk-app] #7103 unique-value!195
[attach-enode] #7103 0
[mk-app] #7104 = #7102 #7103
[attach-enode] #968 0
[attach-enode] #7102 0
[attach-enode] #7104 0
[assign] #7104 justification -1: 
[mk-app] #7046 distinct-aux-f!!20 #969
[mk-app] #7047 unique-value!196
[attach-enode] #7047 0
[mk-app] #7049 = #7046 #7047
[attach-enode] #969 0
[attach-enode] #7046 0
[attach-enode] #7049 0
[assign] #7049 justification -1: 
[mk-app] #7051 distinct-aux-f!!20 #970
[mk-app] #11035 unique-value!197
[attach-enode] #11035 0
[mk-app] #11036 = #7051 #11035
[attach-enode] #970 0
[attach-enode] #7051 0
[attach-enode] #11036 0
[assign] #11036 justification -1: 
[mk-app] #11037 distinct-aux-f!!20 #971
[mk-app] #6946 unique-value!198
[attach-enode] #6946 0
[mk-app] #6947 = #11037 #6946
[attach-enode] #971 0
[attach-enode] #11037 0
[attach-enode] #6947 0
[assign] #6947 justification -1: 
[mk-app] #6948 distinct-aux-f!!20 #972
[mk-app] #6926 unique-value!199
[attach-enode] #6926 0
[mk-app] #6927 = #6948 #6926
[attach-enode] #972 0
[attach-enode] #6948 0
[attach-enode] #6927 0
[assign] #6927 justification -1: 
[mk-app] #6928 distinct-aux-f!!20 #973
[mk-app] #6858 unique-value!200
[attach-enode] #6858 0
[mk-app] #6859 = #6928 #6858
[attach-enode] #973 0
[attach-enode] #6928 0
[attach-enode] #6859 0
[assign] #6859 justification -1: 
[mk-app] #6860 distinct-aux-f!!20 #974
[mk-app] #11353 unique-value!201
[attach-enode] #11353 0
[mk-app] #11354 = #6860 #11353
[attach-enode] #974 0
[attach-enode] #6860 0
[attach-enode] #11354 0
[assign] #11354 justification -1: 
[mk-app] #11359 distinct-aux-f!!20 #975
[mk-app] #11360 unique-value!202
[attach-enode] #11360 0
[mk-app] #11361 = #11359 #11360
[attach-enode] #975 0
[attach-enode] #11359 0
[attach-enode] #11361 0
[assign] #11361 justification -1: 
[mk-app] #11340 distinct-aux-f!!20 #976
[mk-app] #11348 unique-value!203
[attach-enode] #11348 0
[mk-app] #11341 = #11340 #11348
[attach-enode] #976 0
[attach-enode] #11340 0
[attach-enode] #11341 0
[assign] #11341 justification -1: 
[mk-app] #11347 distinct-aux-f!!20 #977
[mk-app] #11349 unique-value!204
[attach-enode] #11349 0
[mk-app] #11350 = #11347 #11349
[attach-enode] #977 0
[attach-enode] #11347 0
[attach-enode] #11350 0
[assign] #11350 justification -1: 
[mk-app] #11351 distinct-aux-f!!20 #978
[mk-app] #11352 unique-value!205
[attach-enode] #11352 0
[mk-app] #6792 = #11351 #11352
[attach-enode] #978 0
[attach-enode] #11351 0
[attach-enode] #6792 0
[assign] #6792 justification -1: 
[mk-app] #6793 distinct-aux-f!!20 #979
[mk-app] #6794 unique-value!206
[attach-enode] #6794 0
[mk-app] #6796 = #6793 #6794
[attach-enode] #979 0
[attach-enode] #6793 0
[attach-enode] #6796 0
[assign] #6796 justification -1: 
[mk-app] #3910 distinct-aux-f!!20 #980
[mk-app] #6723 unique-value!207
[attach-enode] #6723 0
[mk-app] #6724 = #3910 #6723
[attach-enode] #980 0
[attach-enode] #3910 0
[attach-enode] #6724 0
[assign] #6724 justification -1: 
[mk-app] #6642 distinct-aux-f!!20 #981
[mk-app] #6680 unique-value!208
[attach-enode] #6680 0
[mk-app] #6681 = #6642 #6680
[attach-enode] #981 0
[attach-enode] #6642 0
[attach-enode] #6681 0
[assign] #6681 justification -1: 
[mk-app] #6682 distinct-aux-f!!20 #982
[mk-app] #6658 unique-value!209
[attach-enode] #6658 0
[mk-app] #6659 = #6682 #6658
[attach-enode] #982 0
[attach-enode] #6682 0
[attach-enode] #6659 0
[assign] #6659 justification -1: 
[mk-app] #6643 distinct-aux-f!!20 #983
[mk-app] #6644 unique-value!210
[attach-enode] #6644 0
[mk-app] #6645 = #6643 #6644
[attach-enode] #983 0
[attach-enode] #6643 0
[attach-enode] #6645 0
[assign] #6645 justification -1: 
[mk-app] #6620 distinct-aux-f!!20 #984
[mk-app] #6621 unique-value!211
[attach-enode] #6621 0
[mk-app] #6484 = #6620 #6621
[attach-enode] #984 0
[attach-enode] #6620 0
[attach-enode] #6484 0
[assign] #6484 justification -1: 
[mk-app] #6485 distinct-aux-f!!20 #985
[mk-app] #6455 unique-value!212
[attach-enode] #6455 0
[mk-app] #6456 = #6485 #6455
[attach-enode] #985 0
[attach-enode] #6485 0
[attach-enode] #6456 0
[assign] #6456 justification -1: 
[mk-app] #6457 distinct-aux-f!!20 #986
[mk-app] #6444 unique-value!213
[attach-enode] #6444 0
[mk-app] #6445 = #6457 #6444
[attach-enode] #986 0
[attach-enode] #6457 0
[attach-enode] #6445 0
[assign] #6445 justification -1: 
[mk-app] #6446 distinct-aux-f!!20 #987
[mk-app] #6424 unique-value!214
[attach-enode] #6424 0
[mk-app] #6425 = #6446 #6424
[attach-enode] #987 0
[attach-enode] #6446 0
[attach-enode] #6425 0
[assign] #6425 justification -1: 
[mk-app] #6426 distinct-aux-f!!20 #988
[mk-app] #6408 unique-value!215
[attach-enode] #6408 0
[mk-app] #6409 = #6426 #6408
[attach-enode] #988 0
[attach-enode] #6426 0
[attach-enode] #6409 0
[assign] #6409 justification -1: 
[mk-app] #6402 distinct-aux-f!!20 #989
[mk-app] #6403 unique-value!216
[attach-enode] #6403 0
[mk-app] #6395 = #6402 #6403
[attach-enode] #989 0
[attach-enode] #6402 0
[attach-enode] #6395 0
[assign] #6395 justification -1: 
[mk-app] #6388 distinct-aux-f!!20 #990
[mk-app] #6391 unique-value!217
[attach-enode] #6391 0
[mk-app] #6392 = #6388 #6391
[attach-enode] #990 0
[attach-enode] #6388 0
[attach-enode] #6392 0
[assign] #6392 justification -1: 
[mk-app] #6393 distinct-aux-f!!20 #991
[mk-app] #6394 unique-value!218
[attach-enode] #6394 0
[mk-app] #6396 = #6393 #6394
[attach-enode] #991 0
[attach-enode] #6393 0
[attach-enode] #6396 0
[assign] #6396 justification -1: 
[mk-app] #6397 distinct-aux-f!!20 #992
[mk-app] #6386 unique-value!219
[attach-enode] #6386 0
[mk-app] #5447 = #6397 #6386
[attach-enode] #992 0
[attach-enode] #6397 0
[attach-enode] #5447 0
[assign] #5447 justification -1: 
[mk-app] #6362 distinct-aux-f!!20 #993
[mk-app] #6363 unique-value!220
[attach-enode] #6363 0
[mk-app] #6365 = #6362 #6363
[attach-enode] #993 0
[attach-enode] #6362 0
[attach-enode] #6365 0
[assign] #6365 justification -1: 
[mk-app] #5427 distinct-aux-f!!20 #994
[mk-app] #5428 unique-value!221
[attach-enode] #5428 0
[mk-app] #5368 = #5427 #5428
[attach-enode] #994 0
[attach-enode] #5427 0
[attach-enode] #5368 0
[assign] #5368 justification -1: 
[mk-app] #6300 distinct-aux-f!!20 #995
[mk-app] #6301 unique-value!222
[attach-enode] #6301 0
[mk-app] #6302 = #6300 #6301
[attach-enode] #995 0
[attach-enode] #6300 0
[attach-enode] #6302 0
[assign] #6302 justification -1: 
[mk-app] #6216 distinct-aux-f!!20 #996
[mk-app] #6219 unique-value!223
[attach-enode] #6219 0
[mk-app] #6220 = #6216 #6219
[attach-enode] #996 0
[attach-enode] #6216 0
[attach-enode] #6220 0
[assign] #6220 justification -1: 
[mk-app] #6221 distinct-aux-f!!20 #997
[mk-app] #6222 unique-value!224
[attach-enode] #6222 0
[mk-app] #6223 = #6221 #6222
[attach-enode] #997 0
[attach-enode] #6221 0
[attach-enode] #6223 0
[assign] #6223 justification -1: 
[mk-app] #6224 distinct-aux-f!!20 #998
[mk-app] #6214 unique-value!225
[attach-enode] #6214 0
[mk-app] #6151 = #6224 #6214
[attach-enode] #998 0
[attach-enode] #6224 0
[attach-enode] #6151 0
[assign] #6151 justification -1: 
[mk-app] #6152 distinct-aux-f!!20 #999
[mk-app] #6153 unique-value!226
[attach-enode] #6153 0
[mk-app] #6141 = #6152 #6153
[attach-enode] #999 0
[attach-enode] #6152 0
[attach-enode] #6141 0
[assign] #6141 justification -1: 
[mk-app] #6142 distinct-aux-f!!20 #1000
[mk-app] #6143 unique-value!227
[attach-enode] #6143 0
[mk-app] #6145 = #6142 #6143
[attach-enode] #1000 0
[attach-enode] #6142 0
[attach-enode] #6145 0
[assign] #6145 justification -1: 
[mk-app] #6109 distinct-aux-f!!20 #1001
[mk-app] #6110 unique-value!228
[attach-enode] #6110 0
[mk-app] #6108 = #6109 #6110
[attach-enode] #1001 0
[attach-enode] #6109 0
[attach-enode] #6108 0
[assign] #6108 justification -1: 
[mk-app] #6084 distinct-aux-f!!20 #1002
[mk-app] #6085 unique-value!229
[attach-enode] #6085 0
[mk-app] #6086 = #6084 #6085
[attach-enode] #1002 0
[attach-enode] #6084 0
[attach-enode] #6086 0
[assign] #6086 justification -1: 
[mk-app] #5989 distinct-aux-f!!20 #1003
[mk-app] #5990 unique-value!230
[attach-enode] #5990 0
[mk-app] #5991 = #5989 #5990
[attach-enode] #1003 0
[attach-enode] #5989 0
[attach-enode] #5991 0
[assign] #5991 justification -1: 
[mk-app] #11342 distinct-aux-f!!20 #1004
[mk-app] #11343 unique-value!231
[attach-enode] #11343 0
[mk-app] #11331 = #11342 #11343
[attach-enode] #1004 0
[attach-enode] #11342 0
[attach-enode] #11331 0
[assign] #11331 justification -1: 
[mk-app] #5996 distinct-aux-f!!20 #1005
[mk-app] #11335 unique-value!232
[attach-enode] #11335 0
[mk-app] #11336 = #5996 #11335
[attach-enode] #1005 0
[attach-enode] #5996 0
[attach-enode] #11336 0
[assign] #11336 justification -1: 
[mk-app] #11344 distinct-aux-f!!20 #1006
[mk-app] #11345 unique-value!233
[attach-enode] #11345 0
[mk-app] #11346 = #11344 #11345
[attach-enode] #1006 0
[attach-enode] #11344 0
[attach-enode] #11346 0
[assign] #11346 justification -1: 
[mk-app] #5877 distinct-aux-f!!20 #1007
[mk-app] #5880 unique-value!234
[attach-enode] #5880 0
[mk-app] #5881 = #5877 #5880
[attach-enode] #1007 0
[attach-enode] #5877 0
[attach-enode] #5881 0
[assign] #5881 justification -1: 
[mk-app] #5883 distinct-aux-f!!20 #1008
[mk-app] #5882 unique-value!235
[attach-enode] #5882 0
[mk-app] #5874 = #5883 #5882
[attach-enode] #1008 0
[attach-enode] #5883 0
[attach-enode] #5874 0
[assign] #5874 justification -1: 
[mk-app] #5884 distinct-aux-f!!20 #1009
[mk-app] #5885 unique-value!236
[attach-enode] #5885 0
[mk-app] #11296 = #5884 #5885
[attach-enode] #1009 0
[attach-enode] #5884 0
[attach-enode] #11296 0
[assign] #11296 justification -1: 
[mk-app] #11301 distinct-aux-f!!20 #1010
[mk-app] #11305 unique-value!237
[attach-enode] #11305 0
[mk-app] #11306 = #11301 #11305
[attach-enode] #1010 0
[attach-enode] #11301 0
[attach-enode] #11306 0
[assign] #11306 justification -1: 
[mk-app] #11307 distinct-aux-f!!20 #1011
[mk-app] #11308 unique-value!238
[attach-enode] #11308 0
[mk-app] #11309 = #11307 #11308
[attach-enode] #1011 0
[attach-enode] #11307 0
[attach-enode] #11309 0
[assign] #11309 justification -1: 
[mk-app] #11310 distinct-aux-f!!20 #1012
[mk-app] #11312 unique-value!239
[attach-enode] #11312 0
[mk-app] #11313 = #11310 #11312
[attach-enode] #1012 0
[attach-enode] #11310 0
[attach-enode] #11313 0
[assign] #11313 justification -1: 
[mk-app] #11314 distinct-aux-f!!20 #1013
[mk-app] #11311 unique-value!240
[attach-enode] #11311 0
[mk-app] #5027 = #11314 #11311
[attach-enode] #1013 0
[attach-enode] #11314 0
[attach-enode] #5027 0
[assign] #5027 justification -1: 
[mk-app] #5794 distinct-aux-f!!20 #1014
[mk-app] #5795 unique-value!241
[attach-enode] #5795 0
[mk-app] #5789 = #5794 #5795
[attach-enode] #1014 0
[attach-enode] #5794 0
[attach-enode] #5789 0
[assign] #5789 justification -1: 
[mk-app] #5772 distinct-aux-f!!20 #1015
[mk-app] #5773 unique-value!242
[attach-enode] #5773 0
[mk-app] #5774 = #5772 #5773
[attach-enode] #1015 0
[attach-enode] #5772 0
[attach-enode] #5774 0
[assign] #5774 justification -1: 
[mk-app] #5771 distinct-aux-f!!20 #1016
[mk-app] #5775 unique-value!243
[attach-enode] #5775 0
[mk-app] #5784 = #5771 #5775
[attach-enode] #1016 0
[attach-enode] #5771 0
[attach-enode] #5784 0
[assign] #5784 justification -1: 
[mk-app] #5780 distinct-aux-f!!20 #1017
[mk-app] #5783 unique-value!244
[attach-enode] #5783 0
[mk-app] #5785 = #5780 #5783
[attach-enode] #1017 0
[attach-enode] #5780 0
[attach-enode] #5785 0
[assign] #5785 justification -1: 
[mk-app] #5786 distinct-aux-f!!20 #1018
[mk-app] #5790 unique-value!245
[attach-enode] #5790 0
[mk-app] #5788 = #5786 #5790
[attach-enode] #1018 0
[attach-enode] #5786 0
[attach-enode] #5788 0
[assign] #5788 justification -1: 
[mk-app] #5678 distinct-aux-f!!20 #1019
[mk-app] #5679 unique-value!246
[attach-enode] #5679 0
[mk-app] #5680 = #5678 #5679
[attach-enode] #1019 0
[attach-enode] #5678 0
[attach-enode] #5680 0
[assign] #5680 justification -1: 
[mk-app] #5677 distinct-aux-f!!20 #1020
[mk-app] #5681 unique-value!247
[attach-enode] #5681 0
[mk-app] #5690 = #5677 #5681
[attach-enode] #1020 0
[attach-enode] #5677 0
[attach-enode] #5690 0
[assign] #5690 justification -1: 
[mk-app] #5686 distinct-aux-f!!20 #1021
[mk-app] #5689 unique-value!248
[attach-enode] #5689 0
[mk-app] #5691 = #5686 #5689
[attach-enode] #1021 0
[attach-enode] #5686 0
[attach-enode] #5691 0
[assign] #5691 justification -1: 
[mk-app] #5692 distinct-aux-f!!20 #1022
[mk-app] #5693 unique-value!249
[attach-enode] #5693 0
[mk-app] #5694 = #5692 #5693
[attach-enode] #1022 0
[attach-enode] #5692 0
[attach-enode] #5694 0
[assign] #5694 justification -1: 
[mk-app] #5535 distinct-aux-f!!20 #1023
[mk-app] #5536 unique-value!250
[attach-enode] #5536 0
[mk-app] #5537 = #5535 #5536
[attach-enode] #1023 0
[attach-enode] #5535 0
[attach-enode] #5537 0
[assign] #5537 justification -1: 
[mk-app] #5526 distinct-aux-f!!20 #1024
[mk-app] #5527 unique-value!251
[attach-enode] #5527 0
[mk-app] #5528 = #5526 #5527
[attach-enode] #1024 0
[attach-enode] #5526 0
[attach-enode] #5528 0
[assign] #5528 justification -1: 
[mk-app] #5481 distinct-aux-f!!20 #1025
[mk-app] #5474 unique-value!252
[attach-enode] #5474 0
[mk-app] #5477 = #5481 #5474
[attach-enode] #1025 0
[attach-enode] #5481 0
[attach-enode] #5477 0
[assign] #5477 justification -1: 
[mk-app] #5480 distinct-aux-f!!20 #1026
[mk-app] #5482 unique-value!253
[attach-enode] #5482 0
[mk-app] #5479 = #5480 #5482
[attach-enode] #1026 0
[attach-enode] #5480 0
[attach-enode] #5479 0
[assign] #5479 justification -1: 
[mk-app] #5472 distinct-aux-f!!20 #1027
[mk-app] #5449 unique-value!254
[attach-enode] #5449 0
[mk-app] #5448 = #5472 #5449
[attach-enode] #1027 0
[attach-enode] #5472 0
[attach-enode] #5448 0
[assign] #5448 justification -1: 
[mk-app] #5451 distinct-aux-f!!20 #1028
[mk-app] #5433 unique-value!255
[attach-enode] #5433 0
[mk-app] #5434 = #5451 #5433
[attach-enode] #1028 0
[attach-enode] #5451 0
[attach-enode] #5434 0
[assign] #5434 justification -1: 
[mk-app] #5413 distinct-aux-f!!20 #1029
[mk-app] #5415 unique-value!256
[attach-enode] #5415 0
[mk-app] #5416 = #5413 #5415
[attach-enode] #1029 0
[attach-enode] #5413 0
[attach-enode] #5416 0
[assign] #5416 justification -1: 
[mk-app] #5418 distinct-aux-f!!20 #1030
[mk-app] #5317 unique-value!257
[attach-enode] #5317 0
[mk-app] #5319 = #5418 #5317
[attach-enode] #1030 0
[attach-enode] #5418 0
[attach-enode] #5319 0
[assign] #5319 justification -1: 
[mk-app] #5320 distinct-aux-f!!20 #1031
[mk-app] #5322 unique-value!258
[attach-enode] #5322 0
[mk-app] #5221 = #5320 #5322
[attach-enode] #1031 0
[attach-enode] #5320 0
[attach-enode] #5221 0
[assign] #5221 justification -1: 
[mk-app] #5223 distinct-aux-f!!20 #1032
[mk-app] #5224 unique-value!259
[attach-enode] #5224 0
[mk-app] #5226 = #5223 #5224
[attach-enode] #1032 0
[attach-enode] #5223 0
[attach-enode] #5226 0
[assign] #5226 justification -1: 
[mk-app] #5133 distinct-aux-f!!20 #1033
[mk-app] #5135 unique-value!260
[attach-enode] #5135 0
[mk-app] #5136 = #5133 #5135
[attach-enode] #1033 0
[attach-enode] #5133 0
[attach-enode] #5136 0
[assign] #5136 justification -1: 
[mk-app] #5138 distinct-aux-f!!20 #1034
[mk-app] #5058 unique-value!261
[attach-enode] #5058 0
[mk-app] #5059 = #5138 #5058
[attach-enode] #1034 0
[attach-enode] #5138 0
[attach-enode] #5059 0
[assign] #5059 justification -1: 
[mk-app] #5028 distinct-aux-f!!20 #1035
[mk-app] #5029 unique-value!262
[attach-enode] #5029 0
[mk-app] #5018 = #5028 #5029
[attach-enode] #1035 0
[attach-enode] #5028 0
[attach-enode] #5018 0
[assign] #5018 justification -1: 
[attach-enode] #1037 0
[attach-enode] #1038 0
[attach-enode] #1039 0
[attach-enode] #1040 0
[attach-enode] #1041 0
[attach-enode] #1042 0
[attach-enode] #1043 0
[attach-enode] #1048 0
[attach-enode] #1049 0
[attach-enode] #1050 0
[attach-enode] #1055 0
[attach-enode] #1056 0
[attach-enode] #1057 0
[attach-enode] #1058 0
[attach-enode] #1059 0
[attach-enode] #1060 0
[attach-enode] #1061 0
[attach-enode] #1062 0
[attach-enode] #1063 0
[attach-enode] #1064 0
[attach-enode] #1065 0
[attach-enode] #1066 0
[attach-enode] #1067 0
[attach-enode] #1068 0
[attach-enode] #1069 0
[attach-enode] #1070 0
[attach-enode] #1071 0
[attach-enode] #1072 0
[attach-enode] #1073 0
[attach-enode] #1074 0
[attach-enode] #1075 0
[attach-enode] #1076 0
[attach-enode] #1077 0
[attach-enode] #1078 0
[attach-enode] #1079 0
[attach-enode] #1080 0
[attach-enode] #1085 0
[attach-enode] #1086 0
[attach-enode] #1090 0
[attach-enode] #1091 0
[attach-enode] #1092 0
[attach-enode] #1097 0
[attach-enode] #1098 0
[attach-enode] #1099 0
[attach-enode] #1100 0
[attach-enode] #1101 0
[attach-enode] #1102 0
[attach-enode] #1103 0
[attach-enode] #1104 0
[attach-enode] #1105 0
[attach-enode] #1106 0
[attach-enode] #1107 0
[attach-enode] #1108 0
[attach-enode] #1109 0
[attach-enode] #1110 0
[attach-enode] #1111 0
[attach-enode] #1112 0
[attach-enode] #1113 0
[attach-enode] #1118 0
[attach-enode] #1119 0
[attach-enode] #1120 0
[attach-enode] #1121 0
[attach-enode] #1122 0
[attach-enode] #1127 0
[attach-enode] #1128 0
[attach-enode] #1129 0
[attach-enode] #1130 0
[attach-enode] #1131 0
[attach-enode] #1132 0
[attach-enode] #1137 0
[attach-enode] #1138 0
[attach-enode] #1139 0
[attach-enode] #1144 0
[attach-enode] #1145 0
[attach-enode] #1146 0
[attach-enode] #1147 0
[attach-enode] #1148 0
[attach-enode] #1153 0
[attach-enode] #1154 0
[attach-enode] #1155 0
[attach-enode] #1156 0
[attach-enode] #1161 0
[assign] #1161 justification -1: 
[assign] #1097 justification -1: 
[assign] #1118 justification -1: 
[attach-enode] #1162 0
[assign] #1162 justification -1: 
[attach-enode] #1163 0
[assign] #1163 justification -1: 
[attach-enode] #1164 0
[assign] #1164 justification -1: 
[attach-enode] #1165 0
[assign] #1165 justification -1: 
[attach-enode] #1166 0
[assign] #1166 justification -1: 
[attach-enode] #1167 0
[assign] #1167 justification -1: 
[assign] #1048 justification -1: 
[assign] #1055 justification -1: 
[attach-enode] #1168 0
[assign] #1168 justification -1: 
[assign] #1127 justification -1: 
[assign] #1037 justification -1: 
[assign] #1137 justification -1: 
[assign] #1090 justification -1: 
[assign] #1085 justification -1: 
[attach-enode] #1169 0
[assign] #1169 justification -1: 
[assign] #1144 justification -1: 
[attach-enode] #1170 0
[assign] #1170 justification -1: 
[attach-enode] #1171 0
[assign] #1171 justification -1: 
[attach-enode] #1172 0
[assign] #1172 justification -1: 
[attach-enode] #1173 0
[assign] #1173 justification -1: 
[attach-enode] #1174 0
[assign] #1174 justification -1: 
[assign] #1153 justification -1: 
[attach-enode] #1175 0
[assign] #1175 justification -1: 
[attach-enode] #1176 0
[assign] #1176 justification -1: 
[attach-enode] #1177 0
[assign] #1177 justification -1: 
[attach-enode] #1178 0
[assign] #1178 justification -1: 
[assign] #1190 justification -1: 
[assign] #1197 justification -1: 
[attach-enode] #1198 0
[attach-enode] #1199 0
[attach-enode] #203 0
[attach-enode] #1200 0
[assign] #1200 justification -1: 
[attach-enode] #1201 0
[attach-enode] #1202 0
[assign] #1202 justification -1: 
[assign] #1206 justification -1: 
[assign] #1210 justification -1: 
[assign] #1215 justification -1: 
[assign] #1228 justification -1: 
[assign] #11111 justification -1: 
[assign] #11602 justification -1: 
[assign] #11604 justification -1: 
[assign] #11126 justification -1: 
[assign] #1303 justification -1: 
[assign] #1314 justification -1: 
[assign] #1320 justification -1: 
[assign] #1331 justification -1: 
[assign] #1334 justification -1: 
[assign] #1340 justification -1: 
[assign] #1351 justification -1: 
[assign] #1354 justification -1: 
[assign] #1360 justification -1: 
[assign] #1371 justification -1: 
[assign] #1374 justification -1: 
[assign] #1380 justification -1: 
[assign] #1392 justification -1: 
[assign] #1395 justification -1: 
[assign] #1401 justification -1: 
[assign] #1413 justification -1: 
[assign] #1416 justification -1: 
[assign] #1422 justification -1: 
[assign] #1433 justification -1: 
[assign] #1436 justification -1: 
[assign] #1442 justification -1: 
[assign] #1453 justification -1: 
[assign] #1456 justification -1: 
[assign] #1462 justification -1: 
[assign] #11105 justification -1: 
[assign] #1513 justification -1: 
[assign] #1482 justification -1: 
[assign] #1493 justification -1: 
[assign] #1496 justification -1: 
[assign] #1502 justification -1: 
[assign] #11100 justification -1: 
[assign] #11095 justification -1: 
[assign] #1522 justification -1: 
[assign] #1533 justification -1: 
[assign] #1536 justification -1: 
[assign] #1542 justification -1: 
[assign] #1554 justification -1: 
[assign] #1557 justification -1: 
[assign] #1563 justification -1: 
[assign] #1574 justification -1: 
[assign] #1577 justification -1: 
[assign] #1583 justification -1: 
[assign] #1593 justification -1: 
[assign] #1596 justification -1: 
[assign] #1602 justification -1: 
[assign] #1613 justification -1: 
[assign] #1616 justification -1: 
[assign] #1622 justification -1: 
[assign] #1633 justification -1: 
[assign] #1636 justification -1: 
[assign] #1642 justification -1: 
[assign] #1653 justification -1: 
[assign] #1656 justification -1: 
[assign] #1662 justification -1: 
[assign] #1673 justification -1: 
[assign] #1676 justification -1: 
[assign] #1682 justification -1: 
[assign] #1693 justification -1: 
[assign] #1696 justification -1: 
[assign] #1702 justification -1: 
[assign] #1713 justification -1: 
[assign] #1719 justification -1: 
[assign] #1728 justification -1: 
[assign] #1739 justification -1: 
[assign] #1746 justification -1: 
[assign] #1754 justification -1: 
[assign] #11607 justification -1: 
[assign] #11612 justification -1: 
[assign] #1791 justification -1: 
[assign] #1802 justification -1: 
[assign] #1812 justification -1: 
[assign] #1823 justification -1: 
[assign] #1830 justification -1: 
[assign] #1838 justification -1: 
[assign] #1849 justification -1: 
[assign] #1856 justification -1: 
[assign] #1864 justification -1: 
[assign] #1871 justification -1: 
[assign] #1877 justification -1: 
[assign] #1888 justification -1: 
[assign] #11619 justification -1: 
[assign] #1910 justification -1: 
[assign] #1915 justification -1: 
[assign] #1922 justification -1: 
[assign] #1927 justification -1: 
[assign] #1934 justification -1: 
[assign] #1939 justification -1: 
[assign] #1949 justification -1: 
[assign] #1958 justification -1: 
[assign] #1964 justification -1: 
[assign] #1970 justification -1: 
[assign] #1975 justification -1: 
[assign] #1986 justification -1: 
[assign] #11623 justification -1: 
[assign] #2004 justification -1: 
[assign] #2011 justification -1: 
[assign] #2016 justification -1: 
[assign] #2023 justification -1: 
[assign] #2032 justification -1: 
[assign] #2038 justification -1: 
[assign] #2043 justification -1: 
[assign] #2054 justification -1: 
[assign] #11624 justification -1: 
[assign] #2075 justification -1: 
[assign] #2070 justification -1: 
[assign] #2087 justification -1: 
[assign] #2092 justification -1: 
[assign] #2100 justification -1: 
[assign] #2106 justification -1: 
[assign] #2117 justification -1: 
[assign] #2120 justification -1: 
[assign] #2126 justification -1: 
[assign] #2137 justification -1: 
[assign] #2142 justification -1: 
[assign] #2147 justification -1: 
[assign] #2152 justification -1: 
[assign] #2155 justification -1: 
[assign] #2161 justification -1: 
[assign] #2172 justification -1: 
[assign] #2180 justification -1: 
[assign] #2185 justification -1: 
[assign] #2192 justification -1: 
[assign] #2197 justification -1: 
[assign] #2202 justification -1: 
[assign] #2207 justification -1: 
[assign] #2212 justification -1: 
[assign] #2217 justification -1: 
[assign] #2222 justification -1: 
[assign] #2227 justification -1: 
[assign] #2232 justification -1: 
[assign] #2237 justification -1: 
[assign] #2242 justification -1: 
[assign] #2248 justification -1: 
[assign] #2258 justification -1: 
[assign] #2268 justification -1: 
[assign] #2273 justification -1: 
[assign] #2278 justification -1: 
[assign] #2283 justification -1: 
[assign] #2291 justification -1: 
[assign] #2297 justification -1: 
[assign] #2308 justification -1: 
[assign] #2322 justification -1: 
[assign] #2327 justification -1: 
[assign] #2335 justification -1: 
[assign] #2340 justification -1: 
[assign] #2345 justification -1: 
[assign] #2351 justification -1: 
[assign] #2362 justification -1: 
[assign] #2367 justification -1: 
[assign] #2372 justification -1: 
[assign] #2375 justification -1: 
[assign] #2381 justification -1: 
[assign] #2392 justification -1: 
[assign] #2402 justification -1: 
[assign] #2407 justification -1: 
[assign] #2414 justification -1: 
[assign] #2420 justification -1: 
[assign] #2431 justification -1: 
[assign] #11627 justification -1: 
[assign] #2447 justification -1: 
[assign] #2442 justification -1: 
[assign] #2459 justification -1: 
[assign] #11003 justification -1: 
[assign] #2472 justification -1: 
[assign] #2482 justification -1: 
[assign] #11634 justification -1: 
[assign] #2504 justification -1: 
[assign] #2512 justification -1: 
[assign] #2517 justification -1: 
[assign] #2525 justification -1: 
[assign] #2529 justification -1: 
[assign] #2539 justification -1: 
[attach-enode] #2540 0
[attach-enode] #2541 0
[attach-enode] #2488 0
[attach-enode] #2542 0
[assign] #2542 justification -1: 
[attach-enode] #2543 0
[attach-enode] #2544 0
[attach-enode] #2545 0
[assign] #2545 justification -1: 
[attach-enode] #2546 0
[attach-enode] #2547 0
[attach-enode] #2548 0
[assign] #2548 justification -1: 
[attach-enode] #2549 0
[attach-enode] #2550 0
[attach-enode] #2551 0
[assign] #2551 justification -1: 
[attach-enode] #2552 0
[attach-enode] #2553 0
[attach-enode] #2554 0
[assign] #2554 justification -1: 
[attach-enode] #2555 0
[attach-enode] #2556 0
[attach-enode] #2557 0
[assign] #2557 justification -1: 
[assign] #2562 justification -1: 
[assign] #2567 justification -1: 
[attach-enode] #2568 0
[attach-enode] #2569 0
[attach-enode] #2570 0
[assign] #2570 justification -1: 
[attach-enode] #2571 0
[attach-enode] #2572 0
[attach-enode] #2573 0
[assign] #2573 justification -1: 
[attach-enode] #2574 0
[attach-enode] #2575 0
[attach-enode] #2576 0
[assign] #2576 justification -1: 
[attach-enode] #2577 0
[attach-enode] #2578 0
[attach-enode] #2579 0
[assign] #2579 justification -1: 
[assign] #2584 justification -1: 
[assign] #2589 justification -1: 
[attach-enode] #2590 0
[attach-enode] #2591 0
[attach-enode] #2592 0
[assign] #2592 justification -1: 
[assign] #2466 justification -1: 
[assign] #2605 justification -1: 
[assign] #2600 justification -1: 
[attach-enode] #2613 0
[attach-enode] #2614 0
[attach-enode] #2615 0
[assign] #2615 justification -1: 
[attach-enode] #2616 0
[attach-enode] #2617 0
[attach-enode] #2618 0
[assign] #2618 justification -1: 
[attach-enode] #2619 0
[attach-enode] #2620 0
[attach-enode] #2621 0
[assign] #2621 justification -1: 
[assign] #2626 justification -1: 
[assign] #2631 justification -1: 
[attach-enode] #2632 0
[attach-enode] #2633 0
[attach-enode] #2634 0
[assign] #2634 justification -1: 
[attach-enode] #2635 0
[attach-enode] #2636 0
[attach-enode] #2637 0
[assign] #2637 justification -1: 
[attach-enode] #2638 0
[attach-enode] #2639 0
[attach-enode] #2640 0
[assign] #2640 justification -1: 
[attach-enode] #2641 0
[attach-enode] #2642 0
[attach-enode] #2643 0
[assign] #2643 justification -1: 
[attach-enode] #2644 0
[attach-enode] #2645 0
[attach-enode] #2646 0
[assign] #2646 justification -1: 
[attach-enode] #2647 0
[attach-enode] #2648 0
[attach-enode] #2649 0
[assign] #2649 justification -1: 
[attach-enode] #2650 0
[attach-enode] #2651 0
[attach-enode] #2652 0
[assign] #2652 justification -1: 
[assign] #2658 justification -1: 
[assign] #2668 justification -1: 
[assign] #2671 justification -1: 
[assign] #2677 justification -1: 
[assign] #2688 justification -1: 
[assign] #2696 justification -1: 
[assign] #2701 justification -1: 
[assign] #2708 justification -1: 
[assign] #2717 justification -1: 
[assign] #11639 justification -1: 
[assign] #2736 justification -1: 
[assign] #2747 justification -1: 
[assign] #11641 justification -1: 
[assign] #2763 justification -1: 
[assign] #2770 justification -1: 
[assign] #2775 justification -1: 
[assign] #2782 justification -1: 
[assign] #2791 justification -1: 
[assign] #2797 justification -1: 
[assign] #11647 justification -1: 
[assign] #2816 justification -1: 
[assign] #11650 justification -1: 
[assign] #11655 justification -1: 
[assign] #2857 justification -1: 
[assign] #2862 justification -1: 
[assign] #2870 justification -1: 
[assign] #2877 justification -1: 
[assign] #2887 justification -1: 
[assign] #2895 justification -1: 
[assign] #11656 justification -1: 
[assign] #11659 justification -1: 
[assign] #11662 justification -1: 
[assign] #11665 justification -1: 
[assign] #2958 justification -1: 
[assign] #11673 justification -1: 
[assign] #11675 justification -1: 
[assign] #2991 justification -1: 
[assign] #2998 justification -1: 
[assign] #3005 justification -1: 
[assign] #3015 justification -1: 
[assign] #11681 justification -1: 
[assign] #11685 justification -1: 
[assign] #11689 justification -1: 
[assign] #3059 justification -1: 
[assign] #11698 justification -1: 
[assign] #11703 justification -1: 
[assign] #3096 justification -1: 
[assign] #11707 justification -1: 
[assign] #11711 justification -1: 
[assign] #11713 justification -1: 
[assign] #11715 justification -1: 
[assign] #11719 justification -1: 
[assign] #11721 justification -1: 
[assign] #3167 justification -1: 
[assign] #3172 justification -1: 
[assign] #3177 justification -1: 
[assign] #3181 justification -1: 
[assign] #3190 justification -1: 
[assign] #3197 justification -1: 
[attach-enode] #1683 0
[attach-enode] #3198 0
[attach-enode] #3199 0
[assign] #3199 justification -1: 
[attach-enode] #1341 0
[attach-enode] #3204 0
[attach-enode] #244 0
[attach-enode] #1463 0
[attach-enode] #3205 0
[assign] #3205 justification -1: 
[attach-enode] #3202 0
[attach-enode] #3203 0
[assign] #3203 justification -1: 
[attach-enode] #3200 0
[attach-enode] #3161 0
[assign] #3161 justification -1: 
[assign] #3213 justification -1: 
[assign] #3221 justification -1: 
[assign] #3229 justification -1: 
[assign] #3236 justification -1: 
[assign] #11724 justification -1: 
[assign] #11726 justification -1: 
[assign] #11728 justification -1: 
[assign] #11730 justification -1: 
[assign] #11732 justification -1: 
[assign] #11734 justification -1: 
[assign] #3292 justification -1: 
[assign] #3299 justification -1: 
[attach-enode] #1184 0
[attach-enode] #3300 0
[attach-enode] #3301 0
[assign] #3301 justification -1: 
[attach-enode] #3302 0
[attach-enode] #3303 0
[assign] #3303 justification -1: 
[attach-enode] #135 0
[attach-enode] #3304 0
[attach-enode] #3305 0
[assign] #3305 justification -1: 
[attach-enode] #3306 0
[attach-enode] #3307 0
[assign] #3307 justification -1: 
[attach-enode] #3308 0
[attach-enode] #3309 0
[attach-enode] #3310 0
[assign] #3310 justification -1: 
[attach-enode] #3311 0
[attach-enode] #3312 0
[assign] #3312 justification -1: 
[attach-enode] #3313 0
[attach-enode] #3314 0
[attach-enode] #3315 0
[assign] #3315 justification -1: 
[attach-enode] #3316 0
[attach-enode] #3317 0
[assign] #3317 justification -1: 
[attach-enode] #3318 0
[attach-enode] #3319 0
[assign] #3319 justification -1: 
[attach-enode] #3320 0
[attach-enode] #3321 0
[assign] #3321 justification -1: 
[attach-enode] #211 0
[attach-enode] #3322 0
[attach-enode] #3323 0
[assign] #3323 justification -1: 
[attach-enode] #3324 0
[attach-enode] #3325 0
[assign] #3325 justification -1: 
[attach-enode] #3326 0
[attach-enode] #3327 0
[assign] #3327 justification -1: 
[attach-enode] #3328 0
[attach-enode] #3329 0
[assign] #3329 justification -1: 
[assign] #11736 justification -1: 
[assign] #11738 justification -1: 
[assign] #11740 justification -1: 
[assign] #11742 justification -1: 
[assign] #11746 justification -1: 
[assign] #11748 justification -1: 
[assign] #11751 justification -1: 
[assign] #11753 justification -1: 
[assign] #11758 justification -1: 
[assign] #11760 justification -1: 
[assign] #11762 justification -1: 
[assign] #11764 justification -1: 
[assign] #11766 justification -1: 
[assign] #11768 justification -1: 
[assign] #11769 justification -1: 
[assign] #11771 justification -1: 
[assign] #11773 justification -1: 
[assign] #11775 justification -1: 
[assign] #3490 justification -1: 
[assign] #3497 justification -1: 
[assign] #3504 justification -1: 
[assign] #3512 justification -1: 
[assign] #11778 justification -1: 
[assign] #11780 justification -1: 
[assign] #11782 justification -1: 
[assign] #11784 justification -1: 
[assign] #11786 justification -1: 
[assign] #11788 justification -1: 
[assign] #11790 justification -1: 
[assign] #11792 justification -1: 
[assign] #11793 justification -1: 
[assign] #11795 justification -1: 
[assign] #11797 justification -1: 
[assign] #11799 justification -1: 
[assign] #3610 justification -1: 
[assign] #3617 justification -1: 
[assign] #3624 justification -1: 
[assign] #3632 justification -1: 
[assign] #11802 justification -1: 
[assign] #11804 justification -1: 
[assign] #11806 justification -1: 
[assign] #11808 justification -1: 
[assign] #11810 justification -1: 
[assign] #11812 justification -1: 
[assign] #11814 justification -1: 
[assign] #11816 justification -1: 
[assign] #11818 justification -1: 
[assign] #11820 justification -1: 
[assign] #11822 justification -1: 
[assign] #11824 justification -1: 
[assign] #11826 justification -1: 
[assign] #11828 justification -1: 
[assign] #11830 justification -1: 
[assign] #11832 justification -1: 
[assign] #11834 justification -1: 
[assign] #11836 justification -1: 
[assign] #3771 justification -1: 
[assign] #3778 justification -1: 
[assign] #3785 justification -1: 
[assign] #3792 justification -1: 
[assign] #3799 justification -1: 
[assign] #3806 justification -1: 
[assign] #11839 justification -1: 
[assign] #11841 justification -1: 
[assign] #11843 justification -1: 
[assign] #11845 justification -1: 
[assign] #3848 justification -1: 
[assign] #3856 justification -1: 
[assign] #11847 justification -1: 
[assign] #11849 justification -1: 
[assign] #3884 justification -1: 
[assign] #11853 justification -1: 
[assign] #11858 justification -1: 
[assign] #11859 justification -1: 
[attach-enode] #3919 0
[assign] #3919 justification -1: 
[attach-enode] #3920 0
[assign] #11863 justification -1: 
[attach-enode] #3937 0
[assign] #11870 justification -1: 
[assign] #11876 justification -1: 
[attach-enode] #3986 0
[assign] #4012 justification -1: 
[attach-enode] #4013 0
[assign] #11883 justification -1: 
[attach-enode] #4036 0
[attach-enode] #4049 0
[assign] #11893 justification -1: 
[attach-enode] #4085 0
[attach-enode] #4099 0
[attach-enode] #4118 0
[attach-enode] #4135 0
[attach-enode] #4167 0
[attach-enode] #4188 0
[attach-enode] #4202 0
[attach-enode] #4246 0
[assign] #11963 justification -1: 
[attach-enode] #4317 0
[attach-enode] #4331 0
[attach-enode] #4347 0
[attach-enode] #4373 0
[assign] #4373 justification -1: 
[attach-enode] #4374 0
[assign] #11975 justification -1: 
[attach-enode] #4387 0
[attach-enode] #4400 0
[attach-enode] #4413 0
[assign] #11988 justification -1: 
[attach-enode] #4436 0
[attach-enode] #4459 0
[assign] #11008 justification -1: 
[assign] #4505 justification -1: 
[assign] #4511 justification -1: 
[attach-enode] #4512 0
[attach-enode] #4526 0
[assign] #4526 justification -1: 
[attach-enode] #4527 0
[assign] #11009 justification -1: 
[assign] #12011 justification -1: 
[assign] #12015 justification -1: 
[attach-enode] #4568 0
[assign] #4568 justification -1: 
[attach-enode] #4569 0
[assign] #4587 justification -1: 
[attach-enode] #4588 0
[attach-enode] #4632 0
[attach-enode] #4658 0
[attach-enode] #4671 0
[attach-enode] #4693 0
[assign] #4693 justification -1: 
[assign] #4699 justification -1: 
[attach-enode] #4700 0
[assign] #4718 justification -1: 
[attach-enode] #4719 0
[assign] #4719 justification -1: 
[attach-enode] #4720 0
[assign] #12045 justification -1: 
[attach-enode] #4740 0
[assign] #12050 justification -1: 
[assign] #12054 justification -1: 
[attach-enode] #4769 0
[assign] #4769 justification -1: 
[attach-enode] #4770 0
[assign] #12059 justification -1: 
[attach-enode] #4794 0
[attach-enode] #4821 0
[attach-enode] #4859 0
[attach-enode] #4876 0
[attach-enode] #4888 0
[attach-enode] #4910 0
[assign] #4910 justification -1: 
[attach-enode] #4911 0
[attach-enode] #4924 0
[assign] #4949 justification -1: 
[assign] #4952 justification -1: 
[attach-enode] #4953 0
[assign] #12095 justification -1: 
[attach-enode] #4978 0
[attach-enode] #4994 0
[assign] #4994 justification -1: 
[attach-enode] #4995 0
[assign] #4995 justification -1: 
[attach-enode] #4996 0
[assign] #4996 justification -1: 
[assign] #12097 justification -1: 
[assign] #12099 justification -1: 
[assign] #12101 justification -1: 
[assign] #12103 justification -1: 
[attach-enode] #5030 0
[assign] #5030 justification -1: 
[attach-enode] #5031 0
[attach-enode] #5046 0
[assign] #5046 justification -1: 
[attach-enode] #5047 0
[assign] #12105 justification -1: 
[attach-enode] #5060 0
[assign] #5060 justification -1: 
[attach-enode] #5061 0
[attach-enode] #5077 0
[assign] #5077 justification -1: 
[attach-enode] #5078 0
[attach-enode] #5086 0
[assign] #5086 justification -1: 
[attach-enode] #5087 0
[assign] #5087 justification -1: 
[assign] #5096 justification -1: 
[attach-enode] #5097 0
[attach-enode] #5139 0
[assign] #5139 justification -1: 
[attach-enode] #5140 0
[assign] #5140 justification -1: 
[attach-enode] #5141 0
[assign] #5141 justification -1: 
[attach-enode] #5142 0
[assign] #5142 justification -1: 
[attach-enode] #5143 0
[attach-enode] #5153 0
[assign] #5153 justification -1: 
[attach-enode] #5154 0
[attach-enode] #5162 0
[assign] #5162 justification -1: 
[attach-enode] #5163 0
[attach-enode] #5178 0
[assign] #5178 justification -1: 
[attach-enode] #5179 0
[attach-enode] #5187 0
[assign] #5187 justification -1: 
[attach-enode] #5188 0
[assign] #5188 justification -1: 
[attach-enode] #5189 0
[attach-enode] #5227 0
[assign] #5227 justification -1: 
[attach-enode] #5228 0
[assign] #5228 justification -1: 
[attach-enode] #5229 0
[assign] #5229 justification -1: 
[attach-enode] #5230 0
[assign] #5230 justification -1: 
[attach-enode] #5231 0
[attach-enode] #5241 0
[assign] #5241 justification -1: 
[attach-enode] #5242 0
[attach-enode] #5250 0
[assign] #5250 justification -1: 
[attach-enode] #5251 0
[attach-enode] #5266 0
[assign] #5266 justification -1: 
[attach-enode] #5275 0
[attach-enode] #5283 0
[assign] #5283 justification -1: 
[attach-enode] #5284 0
[assign] #5284 justification -1: 
[attach-enode] #5285 0
[attach-enode] #5323 0
[assign] #5323 justification -1: 
[attach-enode] #5324 0
[assign] #5324 justification -1: 
[attach-enode] #5325 0
[assign] #5325 justification -1: 
[attach-enode] #5326 0
[assign] #5326 justification -1: 
[attach-enode] #5327 0
[attach-enode] #5337 0
[assign] #5337 justification -1: 
[attach-enode] #5338 0
[attach-enode] #5346 0
[assign] #5346 justification -1: 
[attach-enode] #5347 0
[attach-enode] #5362 0
[assign] #5362 justification -1: 
[attach-enode] #5371 0
[attach-enode] #5379 0
[assign] #5379 justification -1: 
[attach-enode] #5380 0
[assign] #5380 justification -1: 
[attach-enode] #5381 0
[assign] #5367 justification -1: 
[assign] #12135 justification -1: 
[attach-enode] #5435 0
[attach-enode] #1321 0
[attach-enode] #5452 0
[assign] #5452 justification -1: 
[attach-enode] #5453 0
[attach-enode] #5483 0
[attach-enode] #5499 0
[assign] #5499 justification -1: 
[attach-enode] #5500 0
[assign] #5500 justification -1: 
[attach-enode] #5501 0
[assign] #5501 justification -1: 
[assign] #5504 justification -1: 
[assign] #5510 justification -1: 
[assign] #5516 justification -1: 
[assign] #5519 justification -1: 
[assign] #12146 justification -1: 
[assign] #12149 justification -1: 
[assign] #5544 justification -1: 
[assign] #5551 justification -1: 
[assign] #5559 justification -1: 
[assign] #5566 justification -1: 
[assign] #5577 justification -1: 
[attach-enode] #5578 0
[assign] #5578 justification -1: 
[attach-enode] #5579 0
[assign] #5593 justification -1: 
[assign] #5600 justification -1: 
[attach-enode] #5601 0
[assign] #5601 justification -1: 
[attach-enode] #5602 0
[assign] #5618 justification -1: 
[assign] #12171 justification -1: 
[assign] #5703 justification -1: 
[assign] #12202 justification -1: 
[assign] #12204 justification -1: 
[assign] #5801 justification -1: 
[assign] #12206 justification -1: 
[attach-enode] #5808 0
[assign] #5808 justification -1: 
[attach-enode] #5809 0
[assign] #5821 justification -1: 
[attach-enode] #5822 0
[assign] #5822 justification -1: 
[attach-enode] #5823 0
[assign] #5836 justification -1: 
[attach-enode] #5837 0
[assign] #5837 justification -1: 
[attach-enode] #5838 0
[assign] #12240 justification -1: 
[assign] #5918 justification -1: 
[assign] #12267 justification -1: 
[attach-enode] #6001 0
[assign] #6001 justification -1: 
[attach-enode] #6002 0
[attach-enode] #6012 0
[assign] #6012 justification -1: 
[attach-enode] #6013 0
[assign] #6032 justification -1: 
[attach-enode] #6033 0
[assign] #6033 justification -1: 
[attach-enode] #6034 0
[assign] #6046 justification -1: 
[assign] #6056 justification -1: 
[assign] #12270 justification -1: 
[attach-enode] #6065 0
[assign] #6065 justification -1: 
[attach-enode] #6066 0
[assign] #12277 justification -1: 
[assign] #12279 justification -1: 
[assign] #12287 justification -1: 
[assign] #6119 justification -1: 
[attach-enode] #6120 0
[assign] #6120 justification -1: 
[attach-enode] #6121 0
[attach-enode] #6133 0
[assign] #6133 justification -1: 
[attach-enode] #6134 0
[assign] #12290 justification -1: 
[assign] #6163 justification -1: 
[assign] #12293 justification -1: 
[assign] #6183 justification -1: 
[attach-enode] #6184 0
[assign] #6184 justification -1: 
[attach-enode] #6185 0
[attach-enode] #6197 0
[assign] #6197 justification -1: 
[attach-enode] #6198 0
[assign] #6230 justification -1: 
[assign] #6236 justification -1: 
[attach-enode] #6237 0
[assign] #6237 justification -1: 
[assign] #6242 justification -1: 
[attach-enode] #6243 0
[assign] #6261 justification -1: 
[attach-enode] #6262 0
[assign] #6262 justification -1: 
[attach-enode] #6263 0
[assign] #6283 justification -1: 
[assign] #12308 justification -1: 
[assign] #6322 justification -1: 
[assign] #12313 justification -1: 
[assign] #12318 justification -1: 
[assign] #12323 justification -1: 
[assign] #6353 justification -1: 
[attach-enode] #6354 0
[assign] #6354 justification -1: 
[attach-enode] #6355 0
[attach-enode] #6366 0
[assign] #6366 justification -1: 
[attach-enode] #6367 0
[assign] #12340 justification -1: 
[assign] #12342 justification -1: 
[assign] #12346 justification -1: 
[assign] #12354 justification -1: 
[assign] #12360 justification -1: 
[assign] #6461 justification -1: 
[attach-enode] #6462 0
[assign] #6462 justification -1: 
[assign] #6469 justification -1: 
[attach-enode] #6470 0
[assign] #6470 justification -1: 
[attach-enode] #6471 0
[assign] #12366 justification -1: 
[assign] #5361 justification -1: 
[attach-enode] #6493 0
[assign] #6493 justification -1: 
[assign] #11025 justification -1: 
[assign] #6510 justification -1: 
[attach-enode] #6511 0
[assign] #6511 justification -1: 
[attach-enode] #6512 0
[assign] #6527 justification -1: 
[attach-enode] #6528 0
[assign] #6528 justification -1: 
[attach-enode] #6529 0
[assign] #6568 justification -1: 
[attach-enode] #6569 0
[assign] #6569 justification -1: 
[attach-enode] #6570 0
[assign] #6583 justification -1: 
[attach-enode] #6584 0
[assign] #6584 justification -1: 
[assign] #6591 justification -1: 
[assign] #11027 justification -1: 
[attach-enode] #6610 0
[attach-enode] #6624 0
[assign] #6624 justification -1: 
[assign] #6629 justification -1: 
[assign] #12370 justification -1: 
[attach-enode] #6648 0
[attach-enode] #6662 0
[assign] #6662 justification -1: 
[assign] #6667 justification -1: 
[assign] #12376 justification -1: 
[attach-enode] #6685 0
[assign] #12379 justification -1: 
[attach-enode] #6710 0
[assign] #6710 justification -1: 
[attach-enode] #6711 0
[assign] #12385 justification -1: 
[attach-enode] #6725 0
[assign] #6725 justification -1: 
[attach-enode] #6726 0
[assign] #12386 justification -1: 
[assign] #11031 justification -1: 
[attach-enode] #6750 0
[attach-enode] #6751 0
[attach-enode] #6758 0
[attach-enode] #6759 0
[attach-enode] #6760 0
[attach-enode] #6761 0
[attach-enode] #6762 0
[attach-enode] #6763 0
[attach-enode] #6764 0
[attach-enode] #6765 0
[attach-enode] #6766 0
[assign] (not #12395) justification -1: 
[attach-enode] #6769 0
[attach-enode] #6776 0
[assign] #6776 justification -1: 
[attach-enode] #6777 0
[attach-enode] #6797 0
[assign] #6797 justification -1: 
[attach-enode] #6798 0
[attach-enode] #6808 0
[assign] #6808 justification -1: 
[assign] #12426 justification -1: 
[attach-enode] #6825 0
[assign] #12431 justification -1: 
[assign] #6872 justification -1: 
[assign] #6880 justification -1: 
[assign] #6886 justification -1: 
[assign] #6898 justification -1: 
[attach-enode] #6899 0
[assign] #6899 justification -1: 
[assign] #6905 justification -1: 
[attach-enode] #6906 0
[assign] #12439 justification -1: 
[assign] #12441 justification -1: 
[attach-enode] #6943 0
[assign] #6943 justification -1: 
[assign] #6953 justification -1: 
[attach-enode] #6954 0
[assign] #6973 justification -1: 
[assign] #12447 justification -1: 
[assign] #6994 justification -1: 
[assign] #7001 justification -1: 
[attach-enode] #7002 0
[assign] #7002 justification -1: 
[attach-enode] #7003 0
[attach-enode] #7034 0
[assign] #7034 justification -1: 
[attach-enode] #7035 0
[assign] #12467 justification -1: 
[attach-enode] #7105 0
[assign] #7170 justification -1: 
[attach-enode] #7171 0
[attach-enode] #7188 0
[assign] #7188 justification -1: 
[attach-enode] #7189 0
[assign] #7227 justification -1: 
[assign] #12508 justification -1: 
[assign] #7286 justification -1: 
[assign] #12520 justification -1: 
[assign] #12527 justification -1: 
[assign] #7343 justification -1: 
[assign] #12532 justification -1: 
[attach-enode] #7352 0
[assign] #7352 justification -1: 
[attach-enode] #7353 0
[assign] #12537 justification -1: 
[assign] #12542 justification -1: 
[assign] #12547 justification -1: 
[assign] #12552 justification -1: 
[attach-enode] #7390 0
[assign] #7390 justification -1: 
[assign] #7395 justification -1: 
[assign] #7212 justification -1: 
[attach-enode] #7411 0
[assign] #12570 justification -1: 
[assign] #12574 justification -1: 
[assign] #12583 justification -1: 
[assign] #7506 justification -1: 
[assign] #7512 justification -1: 
[attach-enode] #7513 0
[assign] #7513 justification -1: 
[assign] #7523 justification -1: 
[attach-enode] #7524 0
[assign] #7524 justification -1: 
[attach-enode] #7525 0
[assign] #7537 justification -1: 
[assign] #12587 justification -1: 
[assign] #12595 justification -1: 
[assign] #7604 justification -1: 
[assign] #7610 justification -1: 
[assign] #7616 justification -1: 
[assign] #7625 justification -1: 
[assign] #12602 justification -1: 
[assign] #7641 justification -1: 
[attach-enode] #7642 0
[assign] #7642 justification -1: 
[attach-enode] #7643 0
[attach-enode] #7676 0
[assign] #7676 justification -1: 
[attach-enode] #7677 0
[attach-enode] #7693 0
[assign] #7693 justification -1: 
[attach-enode] #7694 0
[assign] #7730 justification -1: 
[assign] #7736 justification -1: 
[attach-enode] #7737 0
[assign] #7737 justification -1: 
[attach-enode] #7738 0
[attach-enode] #7753 0
[assign] #7753 justification -1: 
[attach-enode] #7754 0
[attach-enode] #7766 0
[assign] #7766 justification -1: 
[attach-enode] #7767 0
[attach-enode] #7779 0
[assign] #7779 justification -1: 
[attach-enode] #7780 0
[attach-enode] #7792 0
[assign] #7792 justification -1: 
[attach-enode] #7793 0
[attach-enode] #7807 0
[assign] #7807 justification -1: 
[attach-enode] #7808 0
[attach-enode] #7817 0
[assign] #7817 justification -1: 
[attach-enode] #7818 0
[attach-enode] #7832 0
[assign] #7832 justification -1: 
[assign] #7840 justification -1: 
[attach-enode] #7841 0
[attach-enode] #7868 0
[assign] #7868 justification -1: 
[attach-enode] #7869 0
[attach-enode] #7884 0
[assign] #7884 justification -1: 
[attach-enode] #7885 0
[attach-enode] #7919 0
[assign] #7919 justification -1: 
[attach-enode] #7920 0
[attach-enode] #7932 0
[assign] #7932 justification -1: 
[attach-enode] #7933 0
[attach-enode] #7944 0
[assign] #7944 justification -1: 
[attach-enode] #7945 0
[attach-enode] #7956 0
[assign] #7956 justification -1: 
[attach-enode] #7957 0
[attach-enode] #7965 0
[assign] #7965 justification -1: 
[attach-enode] #7966 0
[attach-enode] #7979 0
[assign] #7979 justification -1: 
[attach-enode] #7980 0
[attach-enode] #7992 0
[assign] #7992 justification -1: 
[attach-enode] #7993 0
[attach-enode] #8007 0
[assign] #8007 justification -1: 
[attach-enode] #8008 0
[attach-enode] #8020 0
[assign] #8020 justification -1: 
[attach-enode] #8021 0
[attach-enode] #8032 0
[assign] #8032 justification -1: 
[attach-enode] #8033 0
[attach-enode] #8041 0
[assign] #8041 justification -1: 
[attach-enode] #8042 0
[attach-enode] #8050 0
[assign] #8050 justification -1: 
[attach-enode] #8051 0
[attach-enode] #8059 0
[assign] #8059 justification -1: 
[attach-enode] #8060 0
[attach-enode] #8068 0
[assign] #8068 justification -1: 
[attach-enode] #8069 0
[attach-enode] #8077 0
[assign] #8077 justification -1: 
[attach-enode] #8078 0
[attach-enode] #8086 0
[assign] #8086 justification -1: 
[attach-enode] #8087 0
[attach-enode] #8095 0
[assign] #8095 justification -1: 
[attach-enode] #8096 0
[attach-enode] #8111 0
[assign] #8111 justification -1: 
[attach-enode] #8112 0
[attach-enode] #8130 0
[assign] #8130 justification -1: 
[attach-enode] #8131 0
[attach-enode] #8139 0
[assign] #8139 justification -1: 
[attach-enode] #8140 0
[attach-enode] #8148 0
[assign] #8148 justification -1: 
[attach-enode] #8149 0
[attach-enode] #8162 0
[assign] #8162 justification -1: 
[attach-enode] #8163 0
[attach-enode] #8171 0
[assign] #8171 justification -1: 
[attach-enode] #8172 0
[attach-enode] #8180 0
[assign] #8180 justification -1: 
[attach-enode] #8181 0
[attach-enode] #8194 0
[assign] #8194 justification -1: 
[attach-enode] #8195 0
[attach-enode] #8205 0
[assign] #8205 justification -1: 
[attach-enode] #8206 0
[attach-enode] #8216 0
[assign] #8216 justification -1: 
[attach-enode] #8217 0
[attach-enode] #8230 0
[assign] #8230 justification -1: 
[attach-enode] #8231 0
[attach-enode] #8244 0
[assign] #8244 justification -1: 
[attach-enode] #8245 0
[attach-enode] #8255 0
[assign] #8255 justification -1: 
[attach-enode] #8256 0
[attach-enode] #8267 0
[assign] #8267 justification -1: 
[attach-enode] #8268 0
[attach-enode] #8281 0
[assign] #8281 justification -1: 
[attach-enode] #8282 0
[attach-enode] #8295 0
[assign] #8295 justification -1: 
[attach-enode] #8296 0
[attach-enode] #8325 0
[assign] #8325 justification -1: 
[assign] #8330 justification -1: 
[assign] #12717 justification -1: 
[attach-enode] #8349 0
[attach-enode] #8376 0
[assign] #8376 justification -1: 
[assign] #8381 justification -1: 
[assign] #12733 justification -1: 
[attach-enode] #8451 0
[attach-enode] #8492 0
[assign] #8492 justification -1: 
[attach-enode] #8493 0
[attach-enode] #8506 0
[assign] #8506 justification -1: 
[assign] #8511 justification -1: 
[assign] #11084 justification -1: 
[attach-enode] #8551 0
[assign] #11088 justification -1: 
[assign] #11089 justification -1: 
[attach-enode] #8578 0
[assign] #8578 justification -1: 
[attach-enode] #8579 0
[attach-enode] #8591 0
[assign] #8591 justification -1: 
[attach-enode] #8592 0
[attach-enode] #8686 0
[assign] #8686 justification -1: 
[attach-enode] #8687 0
[assign] #12740 justification -1: 
[attach-enode] #8711 0
[assign] #8711 justification -1: 
[attach-enode] #8712 0
[assign] #12752 justification -1: 
[assign] #8862 justification -1: 
[assign] #12765 justification -1: 
[attach-enode] #8905 0
[attach-enode] #8938 0
[assign] #8938 justification -1: 
[attach-enode] #8939 0
[attach-enode] #8959 0
[assign] #8959 justification -1: 
[assign] #8964 justification -1: 
[assign] #12785 justification -1: 
[attach-enode] #8999 0
[attach-enode] #9027 0
[assign] #9027 justification -1: 
[attach-enode] #9028 0
[attach-enode] #9046 0
[assign] #9046 justification -1: 
[attach-enode] #9047 0
[attach-enode] #9055 0
[assign] #9055 justification -1: 
[attach-enode] #9056 0
[attach-enode] #9068 0
[assign] #9068 justification -1: 
[attach-enode] #9069 0
[attach-enode] #9086 0
[assign] #9086 justification -1: 
[attach-enode] #9087 0
[attach-enode] #9088 0
[attach-enode] #8599 0
[attach-enode] #8600 0
[attach-enode] #9089 0
[attach-enode] #9093 0
[assign] #9093 justification -1: 
[attach-enode] #9094 0
[attach-enode] #9095 0
[attach-enode] #8594 0
[attach-enode] #8595 0
[attach-enode] #9096 0
[attach-enode] #9100 0
[assign] #9100 justification -1: 
[attach-enode] #9101 0
[attach-enode] #9102 0
[attach-enode] #8605 0
[attach-enode] #8606 0
[attach-enode] #9103 0
[attach-enode] #9107 0
[assign] #9107 justification -1: 
[attach-enode] #9108 0
[attach-enode] #9109 0
[attach-enode] #8611 0
[attach-enode] #8612 0
[attach-enode] #9110 0
[attach-enode] #9114 0
[assign] #9114 justification -1: 
[attach-enode] #9115 0
[attach-enode] #9116 0
[attach-enode] #8617 0
[attach-enode] #8618 0
[attach-enode] #9117 0
[attach-enode] #9121 0
[assign] #9121 justification -1: 
[attach-enode] #9122 0
[attach-enode] #9123 0
[attach-enode] #8623 0
[attach-enode] #8624 0
[attach-enode] #9124 0
[attach-enode] #9128 0
[assign] #9128 justification -1: 
[attach-enode] #9129 0
[attach-enode] #9130 0
[attach-enode] #8629 0
[attach-enode] #8630 0
[attach-enode] #9131 0
[attach-enode] #9135 0
[assign] #9135 justification -1: 
[attach-enode] #9136 0
[attach-enode] #9137 0
[attach-enode] #8635 0
[attach-enode] #8636 0
[attach-enode] #9138 0
[attach-enode] #9142 0
[assign] #9142 justification -1: 
[attach-enode] #9143 0
[attach-enode] #9144 0
[attach-enode] #8641 0
[attach-enode] #8642 0
[attach-enode] #9145 0
[attach-enode] #9149 0
[assign] #9149 justification -1: 
[attach-enode] #9150 0
[attach-enode] #9151 0
[attach-enode] #8647 0
[attach-enode] #8648 0
[attach-enode] #9152 0
[attach-enode] #9156 0
[assign] #9156 justification -1: 
[attach-enode] #9157 0
[attach-enode] #9158 0
[attach-enode] #8653 0
[attach-enode] #8654 0
[attach-enode] #9159 0
[attach-enode] #9163 0
[assign] #9163 justification -1: 
[attach-enode] #9164 0
[attach-enode] #9165 0
[attach-enode] #8659 0
[attach-enode] #8660 0
[attach-enode] #9166 0
[attach-enode] #9170 0
[assign] #9170 justification -1: 
[attach-enode] #9171 0
[attach-enode] #9172 0
[attach-enode] #8665 0
[attach-enode] #8666 0
[attach-enode] #9173 0
[attach-enode] #9177 0
[assign] #9177 justification -1: 
[attach-enode] #9178 0
[attach-enode] #9179 0
[attach-enode] #8671 0
[attach-enode] #8672 0
[attach-enode] #9180 0
[attach-enode] #9184 0
[assign] #9184 justification -1: 
[attach-enode] #9185 0
[attach-enode] #9389 0
[assign] #9389 justification -1: 
[attach-enode] #9390 0
[attach-enode] #9420 0
[assign] #9420 justification -1: 
[attach-enode] #9421 0
[attach-enode] #9454 0
[attach-enode] #9487 0
[assign] #9487 justification -1: 
[attach-enode] #9488 0
[attach-enode] #9489 0
[attach-enode] #7071 0
[attach-enode] #9490 0
[attach-enode] #9494 0
[assign] #9494 justification -1: 
[assign] #9497 justification -1: 
[assign] #9503 justification -1: 
[assign] #9509 justification -1: 
[assign] #12834 justification -1: 
[assign] #12836 justification -1: 
[assign] #9527 justification -1: 
[attach-enode] #9528 0
[assign] #9528 justification -1: 
[attach-enode] #9529 0
[assign] #9529 justification -1: 
[attach-enode] #9530 0
[assign] #9530 justification -1: 
[attach-enode] #9531 0
[assign] #9531 justification -1: 
[attach-enode] #9532 0
[assign] #9532 justification -1: 
[attach-enode] #9533 0
[assign] #9533 justification -1: 
[attach-enode] #9534 0
[assign] #9534 justification -1: 
[assign] #12838 justification -1: 
[assign] #12840 justification -1: 
[assign] #9552 justification -1: 
[assign] #12842 justification -1: 
[assign] #12844 justification -1: 
[assign] #12846 justification -1: 
[assign] #9576 justification -1: 
[assign] #9582 justification -1: 
[assign] #12848 justification -1: 
[assign] #12850 justification -1: 
[attach-enode] #9597 0
[attach-enode] #9598 0
[assign] #9598 justification -1: 
[attach-enode] #9599 0
[assign] #9599 justification -1: 
[attach-enode] #9600 0
[assign] #9600 justification -1: 
[assign] #9603 justification -1: 
[assign] #9606 justification -1: 
[assign] #9609 justification -1: 
[assign] #12852 justification -1: 
[assign] #12831 justification -1: 
[assign] #12856 justification -1: 
[assign] #9639 justification -1: 
[attach-enode] #9640 0
[assign] #9640 justification -1: 
[assign] #12858 justification -1: 
[attach-enode] #9650 0
[assign] #9650 justification -1: 
[assign] #12860 justification -1: 
[assign] #12862 justification -1: 
[assign] #12864 justification -1: 
[assign] #9676 justification -1: 
[assign] #12866 justification -1: 
[attach-enode] #184 0
[attach-enode] #9686 0
[assign] #9686 justification -1: 
[attach-enode] #195 0
[attach-enode] #9687 0
[assign] #9687 justification -1: 
[attach-enode] #9688 0
[assign] #9688 justification -1: 
[attach-enode] #9689 0
[assign] #9689 justification -1: 
[assign] #9696 justification -1: 
[assign] #9702 justification -1: 
[assign] #12868 justification -1: 
[attach-enode] #3483 0
[attach-enode] #9713 0
[assign] #9713 justification -1: 
[assign] #12871 justification -1: 
[attach-enode] #9722 0
[assign] #9722 justification -1: 
[attach-enode] #9723 0
[assign] #9723 justification -1: 
[attach-enode] #9724 0
[assign] #9724 justification -1: 
[assign] #9727 justification -1: 
[assign] #9730 justification -1: 
[attach-enode] #9731 0
[assign] #9731 justification -1: 
[attach-enode] #9732 0
[assign] #9732 justification -1: 
[attach-enode] #9733 0
[assign] #9733 justification -1: 
[assign] #9739 justification -1: 
[assign] #9745 justification -1: 
[assign] #12872 justification -1: 
[assign] #12875 justification -1: 
[assign] #12878 justification -1: 
[assign] #12879 justification -1: 
[assign] #12881 justification -1: 
[assign] #12883 justification -1: 
[assign] #12885 justification -1: 
[assign] #12887 justification -1: 
[assign] #12890 justification -1: 
[assign] #12892 justification -1: 
[assign] #12894 justification -1: 
[assign] #12897 justification -1: 
[assign] #12899 justification -1: 
[assign] #12901 justification -1: 
[assign] #12903 justification -1: 
[assign] #12907 justification -1: 
[assign] #12909 justification -1: 
[assign] #12911 justification -1: 
[assign] #12913 justification -1: 
[assign] #12914 justification -1: 
[assign] #12916 justification -1: 
[assign] #12919 justification -1: 
[assign] #12921 justification -1: 
[attach-enode] #9906 0
[assign] #9906 justification -1: 
[attach-enode] #9907 0
[assign] #9907 justification -1: 
[assign] #9913 justification -1: 
[assign] #9916 justification -1: 
[assign] #9919 justification -1: 
[attach-enode] #9920 0
[assign] #9920 justification -1: 
[attach-enode] #9921 0
[assign] #9921 justification -1: 
[attach-enode] #9922 0
[assign] #9922 justification -1: 
[assign] #9928 justification -1: 
[assign] #12917 justification -1: 
[assign] #12926 justification -1: 
[assign] #12928 justification -1: 
[assign] #12930 justification -1: 
[attach-enode] #9960 0
[assign] #9960 justification -1: 
[assign] #12932 justification -1: 
[assign] #12934 justification -1: 
[assign] #12936 justification -1: 
[assign] #12938 justification -1: 
[attach-enode] #9987 0
[assign] #9987 justification -1: 
[assign] #12940 justification -1: 
[assign] #12943 justification -1: 
[attach-enode] #10003 0
[assign] #10003 justification -1: 
[attach-enode] #10004 0
[assign] #10004 justification -1: 
[attach-enode] #10005 0
[assign] #10005 justification -1: 
[attach-enode] #10006 0
[assign] #10006 justification -1: 
[attach-enode] #10007 0
[assign] #10007 justification -1: 
[attach-enode] #10008 0
[assign] #10008 justification -1: 
[attach-enode] #10009 0
[assign] #10009 justification -1: 
[attach-enode] #10010 0
[assign] #10010 justification -1: 
[assign] #10013 justification -1: 
[assign] #10016 justification -1: 
[assign] #10019 justification -1: 
[assign] #12924 justification -1: 
[assign] #12947 justification -1: 
[assign] #12949 justification -1: 
[assign] #12951 justification -1: 
[attach-enode] #10048 0
[assign] #10048 justification -1: 
[assign] #10054 justification -1: 
[assign] #12953 justification -1: 
[attach-enode] #10061 0
[assign] #10061 justification -1: 
[attach-enode] #10062 0
[assign] #10062 justification -1: 
[assign] #12955 justification -1: 
[assign] #12957 justification -1: 
[assign] #12959 justification -1: 
[assign] #12961 justification -1: 
[assign] #12963 justification -1: 
[assign] #12966 justification -1: 
[assign] #12968 justification -1: 
[attach-enode] #10110 0
[assign] #10110 justification -1: 
[assign] #12970 justification -1: 
[assign] #12971 justification -1: 
[assign] #10126 justification -1: 
[assign] #12974 justification -1: 
[assign] #12976 justification -1: 
[assign] #12977 justification -1: 
[assign] #10150 justification -1: 
[assign] #12980 justification -1: 
[assign] #12982 justification -1: 
[assign] #12984 justification -1: 
[assign] #12986 justification -1: 
[assign] #12988 justification -1: 
[assign] #12990 justification -1: 
[assign] #12978 justification -1: 
[assign] #12995 justification -1: 
[assign] #12997 justification -1: 
[attach-enode] #10212 0
[assign] #10212 justification -1: 
[attach-enode] #10213 0
[assign] #10213 justification -1: 
[attach-enode] #10214 0
[assign] #10214 justification -1: 
[attach-enode] #10215 0
[assign] #10215 justification -1: 
[assign] #10222 justification -1: 
[assign] #10228 justification -1: 
[attach-enode] #10229 0
[assign] #10229 justification -1: 
[attach-enode] #10230 0
[assign] #10230 justification -1: 
[attach-enode] #10231 0
[assign] #10231 justification -1: 
[assign] #10234 justification -1: 
[assign] #10237 justification -1: 
[assign] #12999 justification -1: 
[assign] #13001 justification -1: 
[assign] #13003 justification -1: 
[assign] #13005 justification -1: 
[assign] #13007 justification -1: 
[attach-enode] #10268 0
[assign] #10268 justification -1: 
[assign] #13009 justification -1: 
[assign] #13011 justification -1: 
[attach-enode] #10283 0
[assign] #10283 justification -1: 
[assign] #13013 justification -1: 
[assign] #13015 justification -1: 
[assign] #13017 justification -1: 
[assign] #10309 justification -1: 
[assign] #10316 justification -1: 
[assign] #10322 justification -1: 
[assign] #13019 justification -1: 
[assign] #13021 justification -1: 
[assign] #13023 justification -1: 
[attach-enode] #10343 0
[assign] #10343 justification -1: 
[attach-enode] #10344 0
[assign] #10344 justification -1: 
[assign] #10351 justification -1: 
[attach-enode] #10352 0
[assign] #10352 justification -1: 
[attach-enode] #10353 0
[assign] #10353 justification -1: 
[assign] #10360 justification -1: 
[attach-enode] #10361 0
[assign] #10361 justification -1: 
[attach-enode] #10362 0
[assign] #10362 justification -1: 
[assign] #10369 justification -1: 
[assign] #10376 justification -1: 
[attach-enode] #10377 0
[assign] #10377 justification -1: 
[attach-enode] #10378 0
[assign] #10378 justification -1: 
[assign] #10384 justification -1: 
[assign] #10391 justification -1: 
[attach-enode] #10392 0
[assign] #10392 justification -1: 
[attach-enode] #10393 0
[assign] #10393 justification -1: 
[assign] #10399 justification -1: 
[assign] #10405 justification -1: 
[assign] #10411 justification -1: 
[assign] #10417 justification -1: 
[assign] #13025 justification -1: 
[assign] #13027 justification -1: 
[assign] #13029 justification -1: 
[assign] #13034 justification -1: 
[assign] #13041 justification -1: 
[assign] #13048 justification -1: 
[assign] #10517 justification -1: 
[assign] #13054 justification -1: 
[assign] #13058 justification -1: 
[assign] #13065 justification -1: 
[assign] #10577 justification -1: 
[assign] #13073 justification -1: 
[assign] #13089 justification -1: 
[assign] #13099 justification -1: 
[assign] #10679 justification -1: 
[assign] #13104 justification -1: 
[assign] #13121 justification -1: 
[assign] #13128 justification -1: 
[assign] #13136 justification -1: 
[assign] #13142 justification -1: 
[assign] #10829 justification -1: 
[assign] #13164 justification -1: 
[assign] #10920 justification -1: 
[assign] #10926 justification -1: 
[assign] #10940 justification -1: 
[assign] #13174 justification -1: 
[assign] #13185 justification -1: 
[assign] #1113 bin 383
[assign] #1112 bin 383
[assign] #1111 bin 383
[assign] #1110 bin 383
[assign] #1109 bin 383
[assign] #1108 bin 383
[assign] #1107 bin 383
[assign] #1106 bin 383
[assign] #1105 bin 383
[assign] #1104 bin 383
[assign] #1103 bin 383
[assign] #1102 bin 383
[assign] #1101 bin 383
[assign] #1100 bin 383
[assign] #1099 bin 383
[assign] #1098 bin 383
[assign] #1122 bin 400
[assign] #1121 bin 400
[assign] #1120 bin 400
[assign] #1119 bin 400
[assign] #1050 bin 349
[assign] #1049 bin 349
[assign] #1080 bin 352
[assign] #1079 bin 352
[assign] #1078 bin 352
[assign] #1077 bin 352
[assign] #1076 bin 352
[assign] #1075 bin 352
[assign] #1074 bin 352
[assign] #1073 bin 352
[assign] #1072 bin 352
[assign] #1071 bin 352
[assign] #1070 bin 352
[assign] #1069 bin 352
[assign] #1068 bin 352
[assign] #1067 bin 352
[assign] #1066 bin 352
[assign] #1065 bin 352
[assign] #1064 bin 352
[assign] #1063 bin 352
[assign] #1062 bin 352
[assign] #1061 bin 352
[assign] #1060 bin 352
[assign] #1059 bin 352
[assign] #1058 bin 352
[assign] #1057 bin 352
[assign] #1056 bin 352
[assign] #1132 bin 405
[assign] #1131 bin 405
[assign] #1130 bin 405
[assign] #1129 bin 405
[assign] #1128 bin 405
[assign] #1043 bin 342
[assign] #1042 bin 342
[assign] #1041 bin 342
[assign] #1040 bin 342
[assign] #1039 bin 342
[assign] #1038 bin 342
[assign] #1139 bin 411
[assign] #1138 bin 411
[assign] #1092 bin 380
[assign] #1091 bin 380
[assign] #1086 bin 378
[assign] #1148 bin 414
[assign] #1147 bin 414
[assign] #1146 bin 414
[assign] #1145 bin 414
[assign] #1156 bin 419
[assign] #1155 bin 419
[assign] #1154 bin 419
[attach-enode] #140 0
[attach-enode] #1361 0
[attach-enode] #1381 0
[attach-enode] #1382 0
[attach-enode] #1402 0
[attach-enode] #1403 0
[attach-enode] #1423 0
[attach-enode] #1443 0
[attach-enode] #1483 0
[attach-enode] #10195 0
[attach-enode] #1523 0
[attach-enode] #1543 0
[attach-enode] #1544 0
[attach-enode] #1564 0
[attach-enode] #1603 0
[attach-enode] #1623 0
[attach-enode] #1643 0
[attach-enode] #1663 0
[attach-enode] #1714 0
[attach-enode] #1715 0
[attach-enode] #2107 0
[attach-enode] #2127 0
[attach-enode] #2162 0
[attach-enode] #2298 0
[attach-enode] #2352 0
[attach-enode] #2382 0
[attach-enode] #2421 0
[attach-enode] #3173 0
[attach-enode] #3452 0
[attach-enode] #3840 0
[attach-enode] #5684 0
[attach-enode] #5695 0
[eq-expl] #2541 root
[eq-expl] #2488 root
[new-match] 53025368 #2539 #2535 #2541 ; #2542 (#2488 #2488)
[eq-expl] #2544 root
[new-match] 532302031 #2539 #2535 #2544 ; #2545 (#2488 #2488)
[eq-expl] #2547 root
[new-match] 1984494065 #2539 #2535 #2547 ; #2548 (#2488 #2488)
[eq-expl] #2550 root
[new-match] 30606965 #2539 #2535 #2550 ; #2551 (#2488 #2488)
[eq-expl] #2553 root
[new-match] 3395939890 #2539 #2535 #2553 ; #2554 (#2488 #2488)
[eq-expl] #2556 root
[new-match] 2292882615 #2539 #2535 #2556 ; #2557 (#2488 #2488)
[eq-expl] #2569 root
[new-match] 3006745866 #2539 #2535 #2569 ; #2570 (#2488 #2488)
[eq-expl] #2572 root
[new-match] 4229748207 #2539 #2535 #2572 ; #2573 (#2488 #2488)
[eq-expl] #2575 root
[new-match] 4152232906 #2539 #2535 #2575 ; #2576 (#2488 #2488)
[eq-expl] #2578 root
[new-match] 2141246290 #2539 #2535 #2578 ; #2579 (#2488 #2488)
[eq-expl] #2591 root
[new-match] 1783560217 #2539 #2535 #2591 ; #2592 (#2488 #2488)
[eq-expl] #2614 root
[new-match] 3533320179 #2539 #2535 #2614 ; #2615 (#2488 #2488)
[eq-expl] #2617 root
[new-match] 2367205453 #2539 #2535 #2617 ; #2618 (#2488 #2488)
[eq-expl] #2620 root
[new-match] 734536210 #2539 #2535 #2620 ; #2621 (#2488 #2488)
[eq-expl] #2633 root
[new-match] 3677380646 #2539 #2535 #2633 ; #2634 (#2488 #2488)
[eq-expl] #2636 root
[new-match] 2679522420 #2539 #2535 #2636 ; #2637 (#2488 #2488)
[eq-expl] #2639 root
[new-match] 1350843233 #2539 #2535 #2639 ; #2640 (#2488 #2488)
[eq-expl] #2642 root
[new-match] 1090201234 #2539 #2535 #2642 ; #2643 (#2488 #2488)
[eq-expl] #2645 root
[new-match] 304278319 #2539 #2535 #2645 ; #2646 (#2488 #2488)
[eq-expl] #2648 root
[new-match] 2229090487 #2539 #2535 #2648 ; #2649 (#2488 #2488)
[eq-expl] #2651 root
[new-match] 3318307403 #2539 #2535 #2651 ; #2652 (#2488 #2488)
[eq-expl] #9489 root
[new-match] 3702371080 #11183 #454 #9489 ; #9494
[eq-expl] #1198 root
[new-match] 1909671463 #1190 #1187 #1198 ; #1199
[new-match] 31336664 #1197 #1194 #1198 ; #1201
[eq-expl] #2540 root
[new-match] 1588039833 #2529 #2528 #2540 ; #2541
[eq-expl] #2543 root
[new-match] 1854990339 #2529 #2528 #2543 ; #2544
[eq-expl] #2546 root
[new-match] 1759255396 #2529 #2528 #2546 ; #2547
[eq-expl] #2549 root
[new-match] 1518111701 #2529 #2528 #2549 ; #2550
[eq-expl] #2552 root
[new-match] 3556614290 #2529 #2528 #2552 ; #2553
[eq-expl] #2555 root
[new-match] 2874539173 #2529 #2528 #2555 ; #2556
[eq-expl] #2568 root
[new-match] 3679829636 #2529 #2528 #2568 ; #2569
[eq-expl] #2571 root
[new-match] 904699594 #2529 #2528 #2571 ; #2572
[eq-expl] #2574 root
[new-match] 404347432 #2529 #2528 #2574 ; #2575
[eq-expl] #2577 root
[new-match] 3689029328 #2529 #2528 #2577 ; #2578
[eq-expl] #2590 root
[new-match] 3124807129 #2529 #2528 #2590 ; #2591
[eq-expl] #2613 root
[new-match] 4230903289 #2529 #2528 #2613 ; #2614
[eq-expl] #2616 root
[new-match] 2867618063 #2529 #2528 #2616 ; #2617
[eq-expl] #2619 root
[new-match] 2725826799 #2529 #2528 #2619 ; #2620
[eq-expl] #2632 root
[new-match] 2079841949 #2529 #2528 #2632 ; #2633
[eq-expl] #2635 root
[new-match] 3545093878 #2529 #2528 #2635 ; #2636
[eq-expl] #2638 root
[new-match] 483189884 #2529 #2528 #2638 ; #2639
[eq-expl] #2641 root
[new-match] 1926441328 #2529 #2528 #2641 ; #2642
[eq-expl] #2644 root
[new-match] 1113677781 #2529 #2528 #2644 ; #2645
[eq-expl] #2647 root
[new-match] 619352409 #2529 #2528 #2647 ; #2648
[eq-expl] #2650 root
[new-match] 2532674112 #2529 #2528 #2650 ; #2651
[eq-expl] #1683 root
[new-match] 3700311788 #2991 #2987 #1683 #1198 ; #4910
[eq-expl] #120 root
[eq-expl] #1341 root
[new-match] 1975848550 #2991 #2987 #1341 #120 ; #6462
[eq-expl] #1184 root
[new-match] 3775116820 #2991 #2987 #1184 #120 ; #9528
[eq-expl] #135 root
[new-match] 2764203955 #2991 #2987 #135 #120 ; #9529
[eq-expl] #3308 root
[new-match] 3931959177 #2991 #2987 #3308 #120 ; #9530
[eq-expl] #3313 root
[new-match] 3002056446 #2991 #2987 #3313 #120 ; #9531
[eq-expl] #203 root
[new-match] 423081679 #2991 #2987 #203 #120 ; #9532
[eq-expl] #211 root
[new-match] 4012117524 #2991 #2987 #211 #120 ; #9533
[eq-expl] #244 root
[new-match] 2157939398 #2991 #2987 #244 #120 ; #9534
[new-match] 1296798943 #2998 #2994 #3308 #120 ; #4994
[new-match] 69592126 #2998 #2994 #3313 #120 ; #5139
[new-match] 3377118037 #2998 #2994 #203 #120 ; #5227
[new-match] 3808862435 #2998 #2994 #211 #120 ; #5323
[new-match] 3608391962 #2998 #2994 #1184 #120 ; #5500
[eq-expl] #9597 root
[new-match] 3633438413 #2998 #2994 #1683 #9597 ; #9598
[eq-expl] #1321 root
[new-match] 1159445983 #12848 #9586 #1321 #120 #1683 #1198 ; #9598 (#9597 #9597)
[new-match] 283254472 #2998 #2994 #135 #120 ; #9599
[new-match] 1815849774 #2998 #2994 #244 #120 ; #9600
[new-match] 3226914980 #2998 #2994 #1321 #120 ; #9640
[new-match] 1451195213 #2998 #2994 #1341 #120 ; #9650
[eq-expl] #184 root
[new-match] 3510751288 #2998 #2994 #184 #120 ; #9686
[eq-expl] #195 root
[new-match] 794332065 #2998 #2994 #195 #120 ; #9687
[new-match] 3874550556 #3005 #3001 #1184 #120 ; #5501
[new-match] 3858927636 #3005 #3001 #203 #120 ; #10005
[new-match] 3227919659 #3005 #3001 #3308 #120 ; #10006
[new-match] 190729509 #3005 #3001 #3313 #120 ; #10007
[new-match] 1774925916 #3005 #3001 #211 #120 ; #10008
[new-match] 3303645319 #3005 #3001 #135 #120 ; #10009
[new-match] 3252032639 #3005 #3001 #244 #120 ; #10010
[new-match] 892389049 #3005 #3001 #1321 #120 ; #10048
[new-match] 1786035940 #3005 #3001 #184 #120 ; #10061
[new-match] 1749488345 #3005 #3001 #195 #120 ; #10062
[new-match] 4186518327 #3015 #3011 #3308 #120 #3308 #120 ; #4996
[new-match] 829944272 #3015 #3011 #3313 #120 #3313 #120 ; #5141
[new-match] 2021317562 #3015 #3011 #203 #120 #203 #120 ; #5229
[new-match] 460733788 #3015 #3011 #211 #120 #211 #120 ; #5325
[new-match] 3230975117 #3015 #3011 #1184 #120 #1184 #120 ; #9920
[new-match] 2781422966 #3015 #3011 #135 #120 #135 #120 ; #9921
[new-match] 3126994209 #3015 #3011 #244 #120 #244 #120 ; #9922
[new-match] 1089099449 #3015 #3011 #1683 #1198 #1683 #1198 ; #9960
[new-match] 3264166964 #3015 #3011 #1341 #120 #1341 #120 ; #9987
[new-match] 4222347024 #3015 #3011 #184 #120 #184 #120 ; #10003
[new-match] 893477422 #3015 #3011 #195 #120 #195 #120 ; #10004
[new-match] 1374146385 #11703 #3085 #3308 #120 ; #5086
[new-match] 973271909 #11703 #3085 #3313 #120 ; #5187
[new-match] 2222670483 #11703 #3085 #203 #120 ; #5283
[new-match] 1813938025 #11703 #3085 #211 #120 ; #5379
[new-match] 3527727927 #11703 #3085 #244 #120 ; #10110
[new-match] 3797184822 #11707 #3100 #3308 #120 ; #5087
[new-match] 3569230821 #12105 #3100 #3308 #120 ; #5087
[new-match] 1180910845 #11707 #3100 #3313 #120 ; #5188
[new-match] 1201076066 #12105 #3100 #3313 #120 ; #5188
[new-match] 541398372 #11707 #3100 #203 #120 ; #5284
[new-match] 1487192873 #12105 #3100 #203 #120 ; #5284
[new-match] 2973197439 #11707 #3100 #211 #120 ; #5380
[new-match] 4094511856 #12105 #3100 #211 #120 ; #5380
[new-match] 35125555 #11715 #3138 #244 #120 #1341 #120 ; #10393
[mk-app] #5019 not #2542
[mk-app] #5020 %Poly%u_tokenizer!token.Variant. #2541
[mk-app] #1997 Poly%u_tokenizer!token.Variant. #5020
[mk-app] #5009 = #2541 #1997
[mk-app] #5010 or #5019 #5009
[mk-app] #5002 not #2539
[mk-app] #5003 or #5002 #5019 #5009
[instance] 53025368 ; 1
[attach-enode] #5020 1
[attach-enode] #1997 1
[attach-enode] #5009 1
[assign] #5009 justification -1: 624 625
[end-of-instance]
[mk-app] #4975 not #2545
[mk-app] #4976 %Poly%u_tokenizer!token.Variant. #2544
[mk-app] #4977 Poly%u_tokenizer!token.Variant. #4976
[mk-app] #4937 = #2544 #4977
[mk-app] #4938 or #4975 #4937
[mk-app] #4939 or #5002 #4975 #4937
[instance] 532302031 ; 1
[attach-enode] #4976 1
[attach-enode] #4977 1
[attach-enode] #4937 1
[assign] #4937 justification -1: 624 626
[end-of-instance]
[mk-app] #4941 not #2548
[mk-app] #4819 %Poly%u_tokenizer!token.Variant. #2547
[mk-app] #4903 Poly%u_tokenizer!token.Variant. #4819
[mk-app] #4729 = #2547 #4903
[mk-app] #4885 or #4941 #4729
[mk-app] #4884 or #5002 #4941 #4729
[instance] 1984494065 ; 1
[attach-enode] #4819 1
[attach-enode] #4903 1
[attach-enode] #4729 1
[assign] #4729 justification -1: 624 627
[end-of-instance]
[mk-app] #4887 not #2551
[mk-app] #4870 %Poly%u_tokenizer!token.Variant. #2550
[mk-app] #4539 Poly%u_tokenizer!token.Variant. #4870
[mk-app] #11010 = #2550 #4539
[mk-app] #4783 or #4887 #11010
[mk-app] #4875 or #5002 #4887 #11010
[instance] 30606965 ; 1
[attach-enode] #4870 1
[attach-enode] #4539 1
[attach-enode] #11010 1
[assign] #11010 justification -1: 624 628
[end-of-instance]
[mk-app] #4873 not #2554
[mk-app] #4748 %Poly%u_tokenizer!token.Variant. #2553
[mk-app] #4751 Poly%u_tokenizer!token.Variant. #4748
[mk-app] #4813 = #2553 #4751
[mk-app] #4871 or #4873 #4813
[mk-app] #4874 or #5002 #4873 #4813
[instance] 3395939890 ; 1
[attach-enode] #4748 1
[attach-enode] #4751 1
[attach-enode] #4813 1
[assign] #4813 justification -1: 624 629
[end-of-instance]
[mk-app] #4856 not #2557
[mk-app] #4846 %Poly%u_tokenizer!token.Variant. #2556
[mk-app] #4858 Poly%u_tokenizer!token.Variant. #4846
[mk-app] #4855 = #2556 #4858
[mk-app] #4848 or #4856 #4855
[mk-app] #4851 or #5002 #4856 #4855
[instance] 2292882615 ; 1
[attach-enode] #4846 1
[attach-enode] #4858 1
[attach-enode] #4855 1
[assign] #4855 justification -1: 624 630
[end-of-instance]
[mk-app] #4852 not #2570
[mk-app] #4854 %Poly%u_tokenizer!token.Variant. #2569
[mk-app] #4853 Poly%u_tokenizer!token.Variant. #4854
[mk-app] #11258 = #2569 #4853
[mk-app] #11264 or #4852 #11258
[mk-app] #11268 or #5002 #4852 #11258
[instance] 3006745866 ; 1
[attach-enode] #4854 1
[attach-enode] #4853 1
[attach-enode] #11258 1
[assign] #11258 justification -1: 624 633
[end-of-instance]
[mk-app] #11269 not #2573
[mk-app] #11270 %Poly%u_tokenizer!token.Variant. #2572
[mk-app] #11271 Poly%u_tokenizer!token.Variant. #11270
[mk-app] #11272 = #2572 #11271
[mk-app] #11273 or #11269 #11272
[mk-app] #11274 or #5002 #11269 #11272
[instance] 4229748207 ; 1
[attach-enode] #11270 1
[attach-enode] #11271 1
[attach-enode] #11272 1
[assign] #11272 justification -1: 624 634
[end-of-instance]
[mk-app] #11275 not #2576
[mk-app] #11276 %Poly%u_tokenizer!token.Variant. #2575
[mk-app] #4792 Poly%u_tokenizer!token.Variant. #11276
[mk-app] #4793 = #2575 #4792
[mk-app] #4787 or #11275 #4793
[mk-app] #11017 or #5002 #11275 #4793
[instance] 4152232906 ; 1
[attach-enode] #11276 1
[attach-enode] #4792 1
[attach-enode] #4793 1
[assign] #4793 justification -1: 624 635
[end-of-instance]
[mk-app] #11018 not #2579
[mk-app] #4784 %Poly%u_tokenizer!token.Variant. #2578
[mk-app] #4785 Poly%u_tokenizer!token.Variant. #4784
[mk-app] #11014 = #2578 #4785
[mk-app] #11015 or #11018 #11014
[mk-app] #11016 or #5002 #11018 #11014
[instance] 2141246290 ; 1
[attach-enode] #4784 1
[attach-enode] #4785 1
[attach-enode] #11014 1
[assign] #11014 justification -1: 624 636
[end-of-instance]
[mk-app] #4565 not #2592
[mk-app] #4767 %Poly%u_tokenizer!token.Variant. #2591
[mk-app] #4768 Poly%u_tokenizer!token.Variant. #4767
[mk-app] #4553 = #2591 #4768
[mk-app] #4556 or #4565 #4553
[mk-app] #4761 or #5002 #4565 #4553
[instance] 1783560217 ; 1
[attach-enode] #4767 1
[attach-enode] #4768 1
[attach-enode] #4553 1
[assign] #4553 justification -1: 624 639
[end-of-instance]
[mk-app] #4762 not #2615
[mk-app] #4763 %Poly%u_tokenizer!token.Variant. #2614
[mk-app] #4738 Poly%u_tokenizer!token.Variant. #4763
[mk-app] #4739 = #2614 #4738
[mk-app] #4733 or #4762 #4739
[mk-app] #4730 or #5002 #4762 #4739
[instance] 3533320179 ; 1
[attach-enode] #4763 1
[attach-enode] #4738 1
[attach-enode] #4739 1
[assign] #4739 justification -1: 624 643
[end-of-instance]
[mk-app] #4731 not #2618
[mk-app] #11011 %Poly%u_tokenizer!token.Variant. #2617
[mk-app] #11012 Poly%u_tokenizer!token.Variant. #11011
[mk-app] #11013 = #2617 #11012
[mk-app] #4656 or #4731 #11013
[mk-app] #4686 or #5002 #4731 #11013
[instance] 2367205453 ; 1
[attach-enode] #11011 1
[attach-enode] #11012 1
[attach-enode] #11013 1
[assign] #11013 justification -1: 624 644
[end-of-instance]
[mk-app] #4689 not #2621
[mk-app] #4690 %Poly%u_tokenizer!token.Variant. #2620
[mk-app] #4692 Poly%u_tokenizer!token.Variant. #4690
[mk-app] #4691 = #2620 #4692
[mk-app] #4684 or #4689 #4691
[mk-app] #4649 or #5002 #4689 #4691
[instance] 734536210 ; 1
[attach-enode] #4690 1
[attach-enode] #4692 1
[attach-enode] #4691 1
[assign] #4691 justification -1: 624 645
[end-of-instance]
[mk-app] #4652 not #2634
[mk-app] #4655 %Poly%u_tokenizer!token.Variant. #2633
[mk-app] #4657 Poly%u_tokenizer!token.Variant. #4655
[mk-app] #4654 = #2633 #4657
[mk-app] #4647 or #4652 #4654
[mk-app] #4628 or #5002 #4652 #4654
[instance] 3677380646 ; 1
[attach-enode] #4655 1
[attach-enode] #4657 1
[attach-enode] #4654 1
[assign] #4654 justification -1: 624 648
[end-of-instance]
[mk-app] #4620 not #2637
[mk-app] #4623 %Poly%u_tokenizer!token.Variant. #2636
[mk-app] #4624 Poly%u_tokenizer!token.Variant. #4623
[mk-app] #4626 = #2636 #4624
[mk-app] #4625 or #4620 #4626
[mk-app] #4617 or #5002 #4620 #4626
[instance] 2679522420 ; 1
[attach-enode] #4623 1
[attach-enode] #4624 1
[attach-enode] #4626 1
[assign] #4626 justification -1: 624 649
[end-of-instance]
[mk-app] #11227 not #2640
[mk-app] #11233 %Poly%u_tokenizer!token.Variant. #2639
[mk-app] #11237 Poly%u_tokenizer!token.Variant. #11233
[mk-app] #11238 = #2639 #11237
[mk-app] #11239 or #11227 #11238
[mk-app] #11240 or #5002 #11227 #11238
[instance] 1350843233 ; 1
[attach-enode] #11233 1
[attach-enode] #11237 1
[attach-enode] #11238 1
[assign] #11238 justification -1: 624 650
[end-of-instance]
[mk-app] #11242 not #2643
[mk-app] #11243 %Poly%u_tokenizer!token.Variant. #2642
[mk-app] #11244 Poly%u_tokenizer!token.Variant. #11243
[mk-app] #11245 = #2642 #11244
[mk-app] #11241 or #11242 #11245
[mk-app] #4566 or #5002 #11242 #11245
[instance] 1090201234 ; 1
[attach-enode] #11243 1
[attach-enode] #11244 1
[attach-enode] #11245 1
[assign] #11245 justification -1: 624 651
[end-of-instance]
[mk-app] #4567 not #2646
[mk-app] #4558 %Poly%u_tokenizer!token.Variant. #2645
[mk-app] #4559 Poly%u_tokenizer!token.Variant. #4558
[mk-app] #4560 = #2645 #4559
[mk-app] #4484 or #4567 #4560
[mk-app] #4481 or #5002 #4567 #4560
[instance] 304278319 ; 1
[attach-enode] #4558 1
[attach-enode] #4559 1
[attach-enode] #4560 1
[assign] #4560 justification -1: 624 652
[end-of-instance]
[mk-app] #4482 not #2649
[mk-app] #4485 %Poly%u_tokenizer!token.Variant. #2648
[mk-app] #4483 Poly%u_tokenizer!token.Variant. #4485
[mk-app] #4487 = #2648 #4483
[mk-app] #4455 or #4482 #4487
[mk-app] #4452 or #5002 #4482 #4487
[instance] 2229090487 ; 1
[attach-enode] #4485 1
[attach-enode] #4483 1
[attach-enode] #4487 1
[assign] #4487 justification -1: 624 653
[end-of-instance]
[mk-app] #4453 not #2652
[mk-app] #4456 %Poly%u_tokenizer!token.Variant. #2651
[mk-app] #4454 Poly%u_tokenizer!token.Variant. #4456
[mk-app] #4458 = #2651 #4454
[mk-app] #4434 or #4453 #4458
[mk-app] #4435 or #5002 #4453 #4458
[instance] 3318307403 ; 1
[attach-enode] #4456 1
[attach-enode] #4454 1
[attach-enode] #4458 1
[assign] #4458 justification -1: 624 654
[end-of-instance]
[mk-app] #4426 >= #9489 #334
[mk-app] #4427 not #4426
[mk-app] #4425 <= #9489 #390
[mk-app] #4429 not #4425
[mk-app] #4163 or #4427 #4429
[mk-app] #4408 not #4163
[mk-app] #4410 >= #9489 #410
[mk-app] #4409 not #4410
[mk-app] #4412 <= #9489 #412
[mk-app] #4395 not #4412
[mk-app] #4397 or #4409 #4395
[mk-app] #4396 not #4397
[mk-app] #4399 or #4408 #4396
[mk-app] #4385 = #9494 #4399
[inst-discovered] theory-solving 0x0 basic# ; #4163
[mk-app] #4386 = #4163 #4163
[instance] 0x0 #4386
[attach-enode] #4386 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #4397
[mk-app] #4386 = #4397 #4397
[instance] 0x0 #4386
[attach-enode] #4386 0
[end-of-instance]
[mk-app] #4386 not #11183
[mk-app] #4345 or #4386 #4385
[instance] 3702371080 ; 1
[assign] #4385 justification -1: 60
[end-of-instance]
[mk-app] #4366 sized #1198
[mk-app] #4369 not #4366
[mk-app] #4370 = #1199 #1184
[mk-app] #4372 or #4369 #4370
[mk-app] #4371 not #1190
[mk-app] #4364 or #4371 #4369 #4370
[instance] 1909671463 ; 1
[attach-enode] #4366 1
[attach-enode] #4370 1
[end-of-instance]
[mk-app] #4131 = #2540 #5020
[mk-app] #4132 not #2529
[mk-app] #4346 or #4132 #4131
[instance] 1588039833 ; 1
[attach-enode] #4131 1
[assign] #4131 justification -1: 623
[end-of-instance]
[mk-app] #4344 = #2543 #4976
[mk-app] #4343 or #4132 #4344
[instance] 1854990339 ; 1
[attach-enode] #4344 1
[assign] #4344 justification -1: 623
[end-of-instance]
[mk-app] #4328 = #2546 #4819
[mk-app] #4327 or #4132 #4328
[instance] 1759255396 ; 1
[attach-enode] #4328 1
[assign] #4328 justification -1: 623
[end-of-instance]
[mk-app] #4330 = #2549 #4870
[mk-app] #4315 or #4132 #4330
[instance] 1518111701 ; 1
[attach-enode] #4330 1
[assign] #4330 justification -1: 623
[end-of-instance]
[mk-app] #4316 = #2552 #4748
[mk-app] #4310 or #4132 #4316
[instance] 3556614290 ; 1
[attach-enode] #4316 1
[assign] #4316 justification -1: 623
[end-of-instance]
[mk-app] #4298 = #2555 #4846
[mk-app] #4304 or #4132 #4298
[instance] 2874539173 ; 1
[attach-enode] #4298 1
[assign] #4298 justification -1: 623
[end-of-instance]
[mk-app] #4307 = #2568 #4854
[mk-app] #4308 or #4132 #4307
[instance] 3679829636 ; 1
[attach-enode] #4307 1
[assign] #4307 justification -1: 623
[end-of-instance]
[mk-app] #4311 = #2571 #11270
[mk-app] #4309 or #4132 #4311
[instance] 904699594 ; 1
[attach-enode] #4311 1
[assign] #4311 justification -1: 623
[end-of-instance]
[mk-app] #4302 = #2574 #11276
[mk-app] #4244 or #4132 #4302
[instance] 404347432 ; 1
[attach-enode] #4302 1
[assign] #4302 justification -1: 623
[end-of-instance]
[mk-app] #4238 = #2577 #4784
[mk-app] #4241 or #4132 #4238
[instance] 3689029328 ; 1
[attach-enode] #4238 1
[assign] #4238 justification -1: 623
[end-of-instance]
[mk-app] #4242 = #2590 #4767
[mk-app] #4245 or #4132 #4242
[instance] 3124807129 ; 1
[attach-enode] #4242 1
[assign] #4242 justification -1: 623
[end-of-instance]
[mk-app] #4243 = #2613 #4763
[mk-app] #4236 or #4132 #4243
[instance] 4230903289 ; 1
[attach-enode] #4243 1
[assign] #4243 justification -1: 623
[end-of-instance]
[mk-app] #3983 = #2616 #11011
[mk-app] #4196 or #4132 #3983
[instance] 2867618063 ; 1
[attach-enode] #3983 1
[assign] #3983 justification -1: 623
[end-of-instance]
[mk-app] #4197 = #2619 #4690
[mk-app] #4199 or #4132 #4197
[instance] 2725826799 ; 1
[attach-enode] #4197 1
[assign] #4197 justification -1: 623
[end-of-instance]
[mk-app] #4198 = #2632 #4655
[mk-app] #4201 or #4132 #4198
[instance] 2079841949 ; 1
[attach-enode] #4198 1
[assign] #4198 justification -1: 623
[end-of-instance]
[mk-app] #4158 = #2635 #4623
[mk-app] #4159 or #4132 #4158
[instance] 3545093878 ; 1
[attach-enode] #4158 1
[assign] #4158 justification -1: 623
[end-of-instance]
[mk-app] #4183 = #2638 #11233
[mk-app] #4182 or #4132 #4183
[instance] 483189884 ; 1
[attach-enode] #4183 1
[assign] #4183 justification -1: 623
[end-of-instance]
[mk-app] #4180 = #2641 #11243
[mk-app] #11193 or #4132 #4180
[instance] 1926441328 ; 1
[attach-enode] #4180 1
[assign] #4180 justification -1: 623
[end-of-instance]
[mk-app] #11203 = #2644 #4558
[mk-app] #11204 or #4132 #11203
[instance] 1113677781 ; 1
[attach-enode] #11203 1
[assign] #11203 justification -1: 623
[end-of-instance]
[mk-app] #11205 = #2647 #4485
[mk-app] #11206 or #4132 #11205
[instance] 619352409 ; 1
[attach-enode] #11205 1
[assign] #11205 justification -1: 623
[end-of-instance]
[mk-app] #11207 = #2650 #4456
[mk-app] #11209 or #4132 #11207
[instance] 2532674112 ; 1
[attach-enode] #11207 1
[assign] #11207 justification -1: 623
[end-of-instance]
[mk-app] #11210 not #9598
[mk-app] #11211 sized #9597
[mk-app] #11212 or #11210 #11211
[inst-discovered] theory-solving 0x0 basic# ; #11212
[mk-app] #11199 = #11212 #11212
[instance] 0x0 #11199
[attach-enode] #11199 0
[end-of-instance]
[mk-app] #11199 not #2998
[mk-app] #4161 or #11199 #11210 #11211
[instance] 3633438413 ; 1
[attach-enode] #11211 1
[assign] #11211 justification -1: 692 1552
[end-of-instance]
[assign] #4399 bin 1781
[new-match] 1885797623 #95 #94 #1198 #1321 #120 ; #11211 (#9597 #9597)
[push] 0
[mk-app] #4160 tmp%1
[mk-app] #4156 <= #334 #4160
[attach-meaning] #363 arith (- 1)
[mk-app] #11162 * #363 #4160
[mk-app] #11172 >= #4160 #334
[inst-discovered] theory-solving 0x0 arith# ; #4156
[mk-app] #11162 = #4156 #11172
[instance] 0x0 #11162
[attach-enode] #11162 0
[end-of-instance]
[mk-app] #11162 tmp%2
[mk-app] #11173 has_type #11162 #1403
[mk-app] #11174 tmp%3
[mk-app] #11175 has_type #11174 #1382
[mk-app] #11176 tmp%5
[mk-app] #11178 MUTREF #120 #1623
[mk-app] #11179 has_type #11176 #11178
[mk-app] #11180 tmp%%@
[mk-app] #11181 Poly%core!option.Option. #11180
[mk-app] #11168 has_type #11181 #7230
[mk-app] #4114 i@
[mk-app] #4134 uInv #269 #4114
[mk-app] #4133 uInv #270 #4114
[mk-app] #4128 c@
[mk-app] #4112 charInv #4128
[mk-app] #4115 verus_tmp$3@0
[mk-app] #4113 Poly%u_tokenizer!lex.Step. #4115
[mk-app] #4117 has_type #4113 #2298
[mk-app] #4082 verus_tmp_st@
[mk-app] #4096 Poly%u_tokenizer!lex.Step. #4082
[mk-app] #4095 has_type #4096 #2298
[mk-app] #4098 st@0
[mk-app] #4083 Poly%u_tokenizer!lex.Step. #4098
[mk-app] #4084 has_type #4083 #2298
[mk-app] #4074 verus_tmp$5@0
[mk-app] #4071 <= #334 #4074
[attach-meaning] #363 arith (- 1)
[mk-app] #4072 * #363 #4074
[mk-app] #4075 >= #4074 #334
[inst-discovered] theory-solving 0x0 arith# ; #4071
[mk-app] #4072 = #4071 #4075
[instance] 0x0 #4072
[attach-enode] #4072 0
[end-of-instance]
[mk-app] #4072 verus_tmp_was@
[mk-app] #4073 <= #334 #4072
[attach-meaning] #363 arith (- 1)
[mk-app] #4066 * #363 #4072
[mk-app] #4033 >= #4072 #334
[inst-discovered] theory-solving 0x0 arith# ; #4073
[mk-app] #4066 = #4073 #4033
[instance] 0x0 #4066
[attach-enode] #4066 0
[end-of-instance]
[mk-app] #4066 was@0
[mk-app] #4046 <= #334 #4066
[attach-meaning] #363 arith (- 1)
[mk-app] #4045 * #363 #4066
[mk-app] #4048 >= #4066 #334
[inst-discovered] theory-solving 0x0 arith# ; #4046
[mk-app] #4045 = #4046 #4048
[instance] 0x0 #4045
[attach-enode] #4045 0
[end-of-instance]
[mk-app] #4045 tmp%7
[mk-app] #4034 <= #334 #4045
[attach-meaning] #363 arith (- 1)
[mk-app] #4035 * #363 #4045
[mk-app] #4004 >= #4045 #334
[inst-discovered] theory-solving 0x0 arith# ; #4034
[mk-app] #4035 = #4034 #4004
[instance] 0x0 #4035
[attach-enode] #4035 0
[end-of-instance]
[mk-app] #4035 tmp%9
[mk-app] #4005 <= #334 #4035
[attach-meaning] #363 arith (- 1)
[mk-app] #4006 * #363 #4035
[mk-app] #4008 >= #4035 #334
[inst-discovered] theory-solving 0x0 arith# ; #4005
[mk-app] #4006 = #4005 #4008
[instance] 0x0 #4006
[attach-enode] #4006 0
[end-of-instance]
[mk-app] #4006 tmp%15
[mk-app] #4007 Poly%u_tokenizer!error.SourceRange. #4006
[mk-app] #4000 has_type #4007 #2421
[mk-app] #3984 line_start@0
[mk-app] #3985 uInv #269 #3984
[mk-app] #3969 uInv #270 #3984
[mk-app] #3971 line_end@0
[mk-app] #3972 uInv #269 #3971
[mk-app] #3973 uInv #270 #3971
[mk-app] #3897 tmp%282
[mk-app] #3948 has_type #3897 #1361
[mk-app] #3949 tmp%301
[mk-app] #3951 MUTREF #120 #1361
[mk-app] #3950 has_type #3949 #3951
[mk-app] #3947 tmp%299
[mk-app] #3935 has_type #3947 #1683
[mk-app] #3936 tmp%300
[mk-app] #3900 has_type #3936 #1341
[mk-app] #3922 iter@0
[mk-app] #3923 Poly%u_tokenizer!lex.CIter. #3922
[mk-app] #3924 u_tokenizer!lex.impl&%1.wf.? #3923
[mk-app] #3911 u_tokenizer!lex.impl&%1.text.? #3923
[mk-app] #3912 Poly%vstd!seq.Seq<char.>. #3911
[mk-app] #3902 t@0
[mk-app] #3903 Poly%vstd!seq.Seq<char.>. #3902
[mk-app] #3904 ext_eq #2 #1463 #3912 #3903
[mk-app] #3872 n@0
[mk-app] #3873 e$4@0
[mk-app] #3865 vstd!seq.Seq.len.? #120 #244 #3903
[mk-app] #3866 < #3873 #3865
[mk-app] #3838 Add #3873 #289
[mk-app] #3839 I #3838
[mk-app] #3831 u_tokenizer!lex.scan.? #3903 #3839 #8402
[mk-app] #3832 if #3866 #3831 #3873
[mk-app] #3824 = #3872 #3832
[mk-app] #3825 <= #334 #3873
[mk-app] #3816 <= #3873 #3865
[mk-app] #3817 and #3825 #3816
[mk-app] #3763 if #3866 #3838 #3873
[mk-app] #3764 u_tokenizer!lex.impl&%1.at.? #3923
[mk-app] #3756 <= #3763 #3764
[mk-app] #3757 <= #3764 #3872
[mk-app] #3746 and #3756 #3757
[mk-app] #3747 <= #3872 #3865
[mk-app] #3739 and #3746 #3747
[mk-app] #3740 decrease%init6%0
[mk-app] #3732 Sub #3865 #3764
[mk-app] #3733 = #3740 #3732
[mk-app] #3725 %%location_label%%0
[mk-app] #3726 req%u_tokenizer!lex.impl&%1.peek. #3922
[mk-app] #3718 => #3725 #3726
[mk-app] #3719 tmp%%$41@
[mk-app] #3711 ens%u_tokenizer!lex.impl&%1.peek. #3922 #3719
[mk-app] #3712 is-core!option.Option./Some #3719
[mk-app] #3704 Poly%core!option.Option. #3719
[mk-app] #3705 %Poly%core!option.Option. #3704
[mk-app] #3696 core!option.Option./Some/0 #7289 #7229 #3705
[mk-app] #3697 %Poly%tuple%2. #3696
[mk-app] #3689 is-tuple%2./tuple%2 #3697
[mk-app] #3690 and #3712 #3689
[mk-app] #3682 d$5@
[mk-app] #3683 tuple%2./tuple%2/1 #3697
[mk-app] #3675 %I #3683
[mk-app] #3676 = #3682 #3675
[mk-app] #3668 tmp%307
[mk-app] #3669 = #3668 #3838
[mk-app] #3660 tmp%308
[mk-app] #3661 = #3660 #3764
[mk-app] #3653 tmp%309
[mk-app] #3654 = #3653 #8401
[mk-app] #3646 %%location_label%%1
[mk-app] #3647 req%u_tokenizer!lex.lemma_scan_on. #3902 #3668 #3660 #3653
[mk-app] #3639 => #3646 #3647
[mk-app] #3640 ens%u_tokenizer!lex.lemma_scan_on. #3902 #3668 #3660 #3653
[mk-app] #3593 tmp%310
[mk-app] #3594 Add #3764 #289
[mk-app] #3586 = #3593 #3594
[mk-app] #3587 tmp%311
[mk-app] #3578 = #3587 #8401
[mk-app] #3579 %%location_label%%2
[mk-app] #3481 req%u_tokenizer!lex.lemma_scan. #3902 #3593 #3587
[mk-app] #3482 => #3579 #3481
[mk-app] #3570 ens%u_tokenizer!lex.lemma_scan. #3902 #3593 #3587
[mk-app] #3571 I #3682
[mk-app] #3563 tmp%312
[mk-app] #3564 ens%u_tokenizer!lex.ClassShim.whitespace_. #120 #244 #3571 #3563
[mk-app] #3556 %B #3563
[mk-app] #3557 = #3682 #6750
[mk-app] #3549 not #3557
[mk-app] #3550 and #3556 #3549
[mk-app] #3542 tmp%313
[mk-app] #3543 has_type #3542 #11178
[mk-app] #3535 mut_ref_current% #3542
[mk-app] #3536 %Poly%u_tokenizer!lex.CIter. #3535
[mk-app] #3528 = #3536 #3922
[mk-app] #3529 tmp%314
[mk-app] #3521 = #3529 #3542
[mk-app] #3522 iter@1
[mk-app] #3473 mut_ref_future% #3542
[mk-app] #3474 %Poly%u_tokenizer!lex.CIter. #3473
[mk-app] #3466 = #3522 #3474
[mk-app] #3467 %%location_label%%3
[mk-app] #3459 req%u_tokenizer!lex.impl&%1.next. #3529
[mk-app] #3460 => #3467 #3459
[mk-app] #3162 tmp%315
[mk-app] #11007 ens%u_tokenizer!lex.impl&%1.next. #3529 #3162
[mk-app] #3450 %%switch_label%%1
[mk-app] #3451 => #11007 #3450
[mk-app] #3444 and #3460 #3451
[mk-app] #3445 => #3466 #3444
[mk-app] #3438 => #3521 #3445
[mk-app] #3439 => #3528 #3438
[mk-app] #3431 => #3543 #3439
[mk-app] #3432 => #3550 #3431
[mk-app] #3423 not #3550
[mk-app] #3424 %%location_label%%4
[mk-app] #3415 => #3424 #3924
[mk-app] #3416 %%location_label%%5
[mk-app] #3401 => #3416 #3904
[mk-app] #3402 %%location_label%%6
[mk-app] #3394 => #3402 #3824
[mk-app] #3395 %%location_label%%7
[mk-app] #3384 => #3395 #3817
[mk-app] #3385 %%location_label%%8
[mk-app] #3376 => #3385 #3739
[mk-app] #3377 %%location_label%%9
[mk-app] #3364 = #3764 #3872
[mk-app] #3365 => #3377 #3364
[mk-app] #3356 and #3376 #3365
[mk-app] #3357 and #3384 #3356
[mk-app] #3346 and #3394 #3357
[mk-app] #3347 and #3401 #3346
[mk-app] #3338 and #3415 #3347
[mk-app] #3339 => #3423 #3338
[mk-app] #3284 and #3432 #3339
[mk-app] #3285 not #3450
[mk-app] #3277 %%switch_label%%0
[mk-app] #3278 and #3285 #3277
[mk-app] #3267 or #3284 #3278
[mk-app] #3268 => #3564 #3267
[mk-app] #3260 => #3570 #3268
[mk-app] #3261 and #3482 #3260
[mk-app] #3252 => #3578 #3261
[mk-app] #3253 => #3586 #3252
[mk-app] #3245 => #3640 #3253
[mk-app] #3246 and #3639 #3245
[mk-app] #3153 => #3654 #3246
[mk-app] #3154 => #3661 #3153
[mk-app] #11005 => #3669 #3154
[mk-app] #11006 => #3676 #11005
[mk-app] #3141 => #3690 #11006
[mk-app] #3142 not #3690
[mk-app] #3119 %%location_label%%10
[mk-app] #3120 => #3119 #3924
[mk-app] #3112 %%location_label%%11
[mk-app] #3113 => #3112 #3904
[mk-app] #3103 %%location_label%%12
[mk-app] #3104 => #3103 #3824
[mk-app] #3088 %%location_label%%13
[mk-app] #3089 => #3088 #3817
[mk-app] #3077 %%location_label%%14
[mk-app] #3079 => #3077 #3739
[mk-app] #3080 %%location_label%%15
[mk-app] #3043 => #3080 #3364
[mk-app] #3044 and #3079 #3043
[mk-app] #3035 and #3089 #3044
[mk-app] #3036 and #3104 #3035
[mk-app] #3027 and #3113 #3036
[mk-app] #3028 and #3120 #3027
[mk-app] #2972 => #3142 #3028
[mk-app] #2981 and #3141 #2972
[mk-app] #2982 not #3277
[mk-app] #2974 %%location_label%%16
[mk-app] #2975 Poly%u_tokenizer!lex.CIter. #3522
[mk-app] #2949 u_tokenizer!lex.impl&%1.wf.? #2975
[mk-app] #2950 => #2974 #2949
[mk-app] #2952 %%location_label%%17
[mk-app] #2951 u_tokenizer!lex.impl&%1.text.? #2975
[mk-app] #2935 Poly%vstd!seq.Seq<char.>. #2951
[mk-app] #2936 ext_eq #2 #1463 #2935 #3903
[mk-app] #2938 => #2952 #2936
[mk-app] #2937 %%location_label%%18
[mk-app] #2922 => #2937 #3824
[mk-app] #2923 %%location_label%%19
[mk-app] #2925 => #2923 #3817
[mk-app] #2924 %%location_label%%20
[mk-app] #2908 u_tokenizer!lex.impl&%1.at.? #2975
[mk-app] #2909 <= #3763 #2908
[mk-app] #2911 <= #2908 #3872
[mk-app] #2910 and #2909 #2911
[mk-app] #2849 and #2910 #3747
[mk-app] #2850 => #2924 #2849
[mk-app] #2851 %%location_label%%21
[mk-app] #11137 Sub #3865 #2908
[mk-app] #11141 I #11137
[mk-app] #11142 I #3740
[mk-app] #11143 check_decrease_height #11141 #11142 #2
[mk-app] #11144 => #2851 #11143
[mk-app] #11145 and #2850 #11144
[mk-app] #11146 and #2925 #11145
[mk-app] #2810 and #2922 #11146
[mk-app] #2811 and #2938 #2810
[mk-app] #2812 and #2950 #2811
[mk-app] #2756 and #2982 #2812
[mk-app] #2757 or #2981 #2756
[mk-app] #2758 => #3711 #2757
[mk-app] #2728 and #3718 #2758
[mk-app] #2729 => #3733 #2728
[mk-app] #2730 => #3739 #2729
[mk-app] #2497 => #3817 #2730
[mk-app] #2498 => #3824 #2497
[mk-app] #2499 => #3904 #2498
[mk-app] #2082 => #3924 #2499
[mk-app] #11000 not #2082
[mk-app] #11001 ext_eq #2 #3204 #3912 #3903
[mk-app] #11002 <= #3865 #3873
[mk-app] #1182 not #11002
[inst-discovered] theory-solving 0x0 arith# ; #3866
[mk-app] #529 = #3866 #1182
[instance] 0x0 #529
[attach-enode] #529 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #529 * #363 #3873
[mk-app] #530 + #3865 #529
[mk-app] #10999 <= #530 #334
[inst-discovered] theory-solving 0x0 arith# ; #11002
[mk-app] #1998 = #11002 #10999
[instance] 0x0 #1998
[attach-enode] #1998 0
[end-of-instance]
[mk-app] #1998 not #10999
[mk-app] #1999 if #10999 #3873 #3831
[mk-app] #1903 if #1998 #3831 #3873
[inst-discovered] theory-solving 0x0 arith# ; #1903
[mk-app] #1904 = #1903 #1999
[instance] 0x0 #1904
[attach-enode] #1904 0
[end-of-instance]
[mk-app] #1903 = #3872 #1999
[attach-meaning] #363 arith (- 1)
[mk-app] #1904 >= #3873 #334
[inst-discovered] theory-solving 0x0 arith# ; #3825
[mk-app] #1905 = #3825 #1904
[instance] 0x0 #1905
[attach-enode] #1905 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #1905 * #363 #3865
[mk-app] #1782 + #1905 #3873
[attach-meaning] #363 arith (- 1)
[mk-app] #1905 >= #530 #334
[inst-discovered] theory-solving 0x0 arith# ; #3816
[mk-app] #1782 = #3816 #1905
[instance] 0x0 #1782
[attach-enode] #1782 0
[end-of-instance]
[mk-app] #1782 and #1904 #1905
[mk-app] #1783 if #10999 #3873 #3838
[mk-app] #1784 if #1998 #3838 #3873
[inst-discovered] theory-solving 0x0 arith# ; #1784
[mk-app] #1785 = #1784 #1783
[instance] 0x0 #1785
[attach-enode] #1785 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #1784 * #363 #3764
[mk-app] #1785 + #1783 #1784
[mk-app] #1768 <= #1785 #334
[mk-app] #1769 <= #1783 #3764
[inst-discovered] theory-solving 0x0 arith# ; #1769
[mk-app] #1770 = #1769 #1768
[instance] 0x0 #1770
[attach-enode] #1770 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #1769 * #363 #3872
[mk-app] #1770 + #3764 #1769
[mk-app] #1771 <= #1770 #334
[inst-discovered] theory-solving 0x0 arith# ; #3757
[mk-app] #1259 = #3757 #1771
[instance] 0x0 #1259
[attach-enode] #1259 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #1259 * #363 #3865
[mk-app] #1269 + #1259 #3872
[attach-meaning] #363 arith (- 1)
[mk-app] #1270 + #3865 #1769
[mk-app] #1259 >= #1270 #334
[inst-discovered] theory-solving 0x0 arith# ; #3747
[mk-app] #1269 = #3747 #1259
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[mk-app] #1269 and #1768 #1771 #1259
[mk-app] #1260 not #3725
[mk-app] #1261 or #1260 #3726
[inst-discovered] theory-solving 0x0 basic# ; #3718
[mk-app] #1160 = #3718 #1261
[instance] 0x0 #1160
[attach-enode] #1160 0
[end-of-instance]
[mk-app] #1160 is #3719
[inst-discovered] theory-solving 0x0 datatype# ; #3712
[mk-app] #1152 = #3712 #1160
[instance] 0x0 #1152
[attach-enode] #1152 0
[end-of-instance]
[mk-app] #1152 is #3697
[inst-discovered] theory-solving 0x0 datatype# ; #3689
[mk-app] #1143 = #3689 #1152
[instance] 0x0 #1143
[attach-enode] #1143 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 datatype# ; #1152
[mk-app] #1143 = #1152 #1
[instance] 0x0 #1143
[attach-enode] #1143 0
[end-of-instance]
[mk-app] #1143 and #1160 #1
[inst-discovered] theory-solving 0x0 basic# ; #1143
[mk-app] #1136 = #1143 #1160
[instance] 0x0 #1136
[attach-enode] #1136 0
[end-of-instance]
[mk-app] #1143 not #3646
[mk-app] #1136 or #1143 #3647
[inst-discovered] theory-solving 0x0 basic# ; #3639
[mk-app] #1126 = #3639 #1136
[instance] 0x0 #1126
[attach-enode] #1126 0
[end-of-instance]
[mk-app] #1126 not #3579
[mk-app] #1117 or #1126 #3481
[inst-discovered] theory-solving 0x0 basic# ; #3482
[mk-app] #1096 = #3482 #1117
[instance] 0x0 #1096
[attach-enode] #1096 0
[end-of-instance]
[mk-app] #1096 not #3467
[mk-app] #1084 or #1096 #3459
[inst-discovered] theory-solving 0x0 basic# ; #3460
[mk-app] #1054 = #3460 #1084
[instance] 0x0 #1054
[attach-enode] #1054 0
[end-of-instance]
[mk-app] #1054 not #11007
[mk-app] #1047 or #1054 #3450
[inst-discovered] theory-solving 0x0 basic# ; #3451
[mk-app] #782 = #3451 #1047
[instance] 0x0 #782
[attach-enode] #782 0
[end-of-instance]
[mk-app] #782 and #1084 #1047
[mk-app] #783 not #3466
[mk-app] #784 or #783 #782
[mk-app] #785 => #3466 #782
[inst-discovered] theory-solving 0x0 basic# ; #785
[mk-app] #746 = #785 #784
[instance] 0x0 #746
[attach-enode] #746 0
[end-of-instance]
[mk-app] #785 not #3521
[mk-app] #746 or #785 #783 #782
[mk-app] #747 => #3521 #784
[inst-discovered] theory-solving 0x0 basic# ; #747
[mk-app] #748 = #747 #746
[instance] 0x0 #748
[attach-enode] #748 0
[end-of-instance]
[mk-app] #784 not #3528
[mk-app] #747 or #784 #785 #783 #782
[mk-app] #748 => #3528 #746
[inst-discovered] theory-solving 0x0 basic# ; #748
[mk-app] #749 = #748 #747
[instance] 0x0 #749
[attach-enode] #749 0
[end-of-instance]
[mk-app] #746 not #3543
[mk-app] #748 or #746 #784 #785 #783 #782
[mk-app] #749 => #3543 #747
[inst-discovered] theory-solving 0x0 basic# ; #749
[mk-app] #735 = #749 #748
[instance] 0x0 #735
[attach-enode] #735 0
[end-of-instance]
[mk-app] #747 or #3423 #746 #784 #785 #783 #782
[mk-app] #749 => #3550 #748
[inst-discovered] theory-solving 0x0 basic# ; #749
[mk-app] #735 = #749 #747
[instance] 0x0 #735
[attach-enode] #735 0
[end-of-instance]
[mk-app] #748 not #3424
[mk-app] #749 or #748 #3924
[inst-discovered] theory-solving 0x0 basic# ; #3415
[mk-app] #735 = #3415 #749
[instance] 0x0 #735
[attach-enode] #735 0
[end-of-instance]
[mk-app] #735 not #3416
[mk-app] #737 or #735 #11001
[mk-app] #738 => #3416 #11001
[inst-discovered] theory-solving 0x0 basic# ; #738
[mk-app] #739 = #738 #737
[instance] 0x0 #739
[attach-enode] #739 0
[end-of-instance]
[mk-app] #738 not #3402
[mk-app] #739 or #738 #1903
[mk-app] #694 => #3402 #1903
[inst-discovered] theory-solving 0x0 basic# ; #694
[mk-app] #725 = #694 #739
[instance] 0x0 #725
[attach-enode] #725 0
[end-of-instance]
[mk-app] #694 not #3395
[mk-app] #725 or #694 #1782
[mk-app] #726 => #3395 #1782
[inst-discovered] theory-solving 0x0 basic# ; #726
[mk-app] #683 = #726 #725
[instance] 0x0 #683
[attach-enode] #683 0
[end-of-instance]
[mk-app] #726 not #3385
[mk-app] #683 or #726 #1269
[mk-app] #718 => #3385 #1269
[inst-discovered] theory-solving 0x0 basic# ; #718
[mk-app] #719 = #718 #683
[instance] 0x0 #719
[attach-enode] #719 0
[end-of-instance]
[mk-app] #718 not #3377
[mk-app] #719 or #718 #3364
[inst-discovered] theory-solving 0x0 basic# ; #3365
[mk-app] #710 = #3365 #719
[instance] 0x0 #710
[attach-enode] #710 0
[end-of-instance]
[mk-app] #710 and #749 #737 #739 #725 #683 #719
[mk-app] #711 or #3550 #710
[mk-app] #703 => #3423 #710
[inst-discovered] theory-solving 0x0 basic# ; #703
[mk-app] #704 = #703 #711
[instance] 0x0 #704
[attach-enode] #704 0
[end-of-instance]
[mk-app] #703 and #747 #711
[mk-app] #704 or #703 #3278
[inst-discovered] theory-solving 0x0 basic# ; #704
[mk-app] #695 = #704 #704
[instance] 0x0 #695
[attach-enode] #695 0
[end-of-instance]
[mk-app] #695 not #3564
[mk-app] #696 or #695 #703 #3278
[mk-app] #684 => #3564 #704
[inst-discovered] theory-solving 0x0 basic# ; #684
[mk-app] #685 = #684 #696
[instance] 0x0 #685
[attach-enode] #685 0
[end-of-instance]
[mk-app] #704 not #3570
[mk-app] #684 or #704 #695 #703 #3278
[mk-app] #685 => #3570 #696
[inst-discovered] theory-solving 0x0 basic# ; #685
[mk-app] #649 = #685 #684
[instance] 0x0 #649
[attach-enode] #649 0
[end-of-instance]
[mk-app] #696 and #1117 #684
[mk-app] #685 not #3578
[mk-app] #649 or #685 #696
[mk-app] #650 => #3578 #696
[inst-discovered] theory-solving 0x0 basic# ; #650
[mk-app] #656 = #650 #649
[instance] 0x0 #656
[attach-enode] #656 0
[end-of-instance]
[mk-app] #650 not #3586
[mk-app] #656 or #650 #685 #696
[mk-app] #670 => #3586 #649
[inst-discovered] theory-solving 0x0 basic# ; #670
[mk-app] #671 = #670 #656
[instance] 0x0 #671
[attach-enode] #671 0
[end-of-instance]
[mk-app] #649 not #3640
[mk-app] #670 or #649 #650 #685 #696
[mk-app] #671 => #3640 #656
[inst-discovered] theory-solving 0x0 basic# ; #671
[mk-app] #672 = #671 #670
[instance] 0x0 #672
[attach-enode] #672 0
[end-of-instance]
[mk-app] #656 and #1136 #670
[mk-app] #671 not #3654
[mk-app] #672 or #671 #656
[mk-app] #673 => #3654 #656
[inst-discovered] theory-solving 0x0 basic# ; #673
[mk-app] #655 = #673 #672
[instance] 0x0 #655
[attach-enode] #655 0
[end-of-instance]
[mk-app] #673 not #3661
[mk-app] #655 or #673 #671 #656
[mk-app] #657 => #3661 #672
[inst-discovered] theory-solving 0x0 basic# ; #657
[mk-app] #658 = #657 #655
[instance] 0x0 #658
[attach-enode] #658 0
[end-of-instance]
[mk-app] #672 not #3669
[mk-app] #657 or #672 #673 #671 #656
[mk-app] #658 => #3669 #655
[inst-discovered] theory-solving 0x0 basic# ; #658
[mk-app] #636 = #658 #657
[instance] 0x0 #636
[attach-enode] #636 0
[end-of-instance]
[mk-app] #655 not #3676
[mk-app] #658 or #655 #672 #673 #671 #656
[mk-app] #636 => #3676 #657
[inst-discovered] theory-solving 0x0 basic# ; #636
[mk-app] #637 = #636 #658
[instance] 0x0 #637
[attach-enode] #637 0
[end-of-instance]
[mk-app] #657 not #1160
[mk-app] #636 or #657 #655 #672 #673 #671 #656
[mk-app] #637 => #1160 #658
[inst-discovered] theory-solving 0x0 basic# ; #637
[mk-app] #639 = #637 #636
[instance] 0x0 #639
[attach-enode] #639 0
[end-of-instance]
[mk-app] #658 not #3119
[mk-app] #637 or #658 #3924
[inst-discovered] theory-solving 0x0 basic# ; #3120
[mk-app] #639 = #3120 #637
[instance] 0x0 #639
[attach-enode] #639 0
[end-of-instance]
[mk-app] #639 not #3112
[mk-app] #640 or #639 #11001
[mk-app] #432 => #3112 #11001
[inst-discovered] theory-solving 0x0 basic# ; #432
[mk-app] #433 = #432 #640
[instance] 0x0 #433
[attach-enode] #433 0
[end-of-instance]
[mk-app] #432 not #3103
[mk-app] #433 or #432 #1903
[mk-app] #434 => #3103 #1903
[inst-discovered] theory-solving 0x0 basic# ; #434
[mk-app] #456 = #434 #433
[instance] 0x0 #456
[attach-enode] #456 0
[end-of-instance]
[mk-app] #434 not #3088
[mk-app] #456 or #434 #1782
[mk-app] #457 => #3088 #1782
[inst-discovered] theory-solving 0x0 basic# ; #457
[mk-app] #402 = #457 #456
[instance] 0x0 #402
[attach-enode] #402 0
[end-of-instance]
[mk-app] #457 not #3077
[mk-app] #402 or #457 #1269
[mk-app] #404 => #3077 #1269
[inst-discovered] theory-solving 0x0 basic# ; #404
[mk-app] #452 = #404 #402
[instance] 0x0 #452
[attach-enode] #452 0
[end-of-instance]
[mk-app] #404 not #3080
[mk-app] #452 or #404 #3364
[inst-discovered] theory-solving 0x0 basic# ; #3043
[mk-app] #453 = #3043 #452
[instance] 0x0 #453
[attach-enode] #453 0
[end-of-instance]
[mk-app] #453 and #637 #640 #433 #456 #402 #452
[mk-app] #371 or #1160 #453
[mk-app] #373 => #657 #453
[inst-discovered] theory-solving 0x0 basic# ; #373
[mk-app] #446 = #373 #371
[instance] 0x0 #446
[attach-enode] #446 0
[end-of-instance]
[mk-app] #373 and #636 #371
[mk-app] #446 not #2974
[mk-app] #447 or #446 #2949
[inst-discovered] theory-solving 0x0 basic# ; #2950
[mk-app] #427 = #2950 #447
[instance] 0x0 #427
[attach-enode] #427 0
[end-of-instance]
[mk-app] #427 ext_eq #2 #3204 #2935 #3903
[mk-app] #429 not #2952
[mk-app] #430 or #429 #427
[mk-app] #436 => #2952 #427
[inst-discovered] theory-solving 0x0 basic# ; #436
[mk-app] #437 = #436 #430
[instance] 0x0 #437
[attach-enode] #437 0
[end-of-instance]
[mk-app] #436 not #2937
[mk-app] #437 or #436 #1903
[mk-app] #438 => #2937 #1903
[inst-discovered] theory-solving 0x0 basic# ; #438
[mk-app] #439 = #438 #437
[instance] 0x0 #439
[attach-enode] #439 0
[end-of-instance]
[mk-app] #438 not #2923
[mk-app] #439 or #438 #1782
[mk-app] #395 => #2923 #1782
[inst-discovered] theory-solving 0x0 basic# ; #395
[mk-app] #405 = #395 #439
[instance] 0x0 #405
[attach-enode] #405 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #395 * #363 #2908
[mk-app] #405 + #1783 #395
[mk-app] #406 <= #405 #334
[mk-app] #407 <= #1783 #2908
[inst-discovered] theory-solving 0x0 arith# ; #407
[mk-app] #408 = #407 #406
[instance] 0x0 #408
[attach-enode] #408 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #407 + #2908 #1769
[mk-app] #408 <= #407 #334
[inst-discovered] theory-solving 0x0 arith# ; #2911
[mk-app] #365 = #2911 #408
[instance] 0x0 #365
[attach-enode] #365 0
[end-of-instance]
[mk-app] #365 and #406 #408 #1259
[mk-app] #374 not #2924
[mk-app] #375 or #374 #365
[mk-app] #376 => #2924 #365
[inst-discovered] theory-solving 0x0 basic# ; #376
[mk-app] #377 = #376 #375
[instance] 0x0 #377
[attach-enode] #377 0
[end-of-instance]
[mk-app] #376 not #2851
[mk-app] #377 or #376 #11143
[inst-discovered] theory-solving 0x0 basic# ; #11144
[mk-app] #347 = #11144 #377
[instance] 0x0 #347
[attach-enode] #347 0
[end-of-instance]
[mk-app] #347 and #2982 #447 #430 #437 #439 #375 #377
[mk-app] #348 or #373 #347
[mk-app] #154 not #3711
[mk-app] #155 or #154 #373 #347
[mk-app] #75 => #3711 #348
[inst-discovered] theory-solving 0x0 basic# ; #75
[mk-app] #76 = #75 #155
[instance] 0x0 #76
[attach-enode] #76 0
[end-of-instance]
[mk-app] #348 and #1261 #155
[mk-app] #75 not #3733
[mk-app] #76 or #75 #348
[mk-app] #77 => #3733 #348
[inst-discovered] theory-solving 0x0 basic# ; #77
[mk-app] #13188 = #77 #76
[instance] 0x0 #13188
[attach-enode] #13188 0
[end-of-instance]
[mk-app] #77 not #1269
[mk-app] #13188 or #77 #75 #348
[mk-app] #13189 => #1269 #76
[inst-discovered] theory-solving 0x0 basic# ; #13189
[mk-app] #13190 = #13189 #13188
[instance] 0x0 #13190
[attach-enode] #13190 0
[end-of-instance]
[mk-app] #76 not #1782
[mk-app] #13189 or #76 #77 #75 #348
[mk-app] #13190 => #1782 #13188
[inst-discovered] theory-solving 0x0 basic# ; #13190
[mk-app] #13191 = #13190 #13189
[instance] 0x0 #13191
[attach-enode] #13191 0
[end-of-instance]
[mk-app] #13188 not #1903
[mk-app] #13190 or #13188 #76 #77 #75 #348
[mk-app] #13191 => #1903 #13189
[inst-discovered] theory-solving 0x0 basic# ; #13191
[mk-app] #13192 = #13191 #13190
[instance] 0x0 #13192
[attach-enode] #13192 0
[end-of-instance]
[mk-app] #13189 not #11001
[mk-app] #13191 or #13189 #13188 #76 #77 #75 #348
[mk-app] #13192 => #11001 #13190
[inst-discovered] theory-solving 0x0 basic# ; #13192
[mk-app] #13193 = #13192 #13191
[instance] 0x0 #13193
[attach-enode] #13193 0
[end-of-instance]
[mk-app] #13190 not #3924
[mk-app] #13192 or #13190 #13189 #13188 #76 #77 #75 #348
[mk-app] #13193 => #3924 #13191
[inst-discovered] theory-solving 0x0 basic# ; #13193
[mk-app] #13194 = #13193 #13192
[instance] 0x0 #13194
[attach-enode] #13194 0
[end-of-instance]
[mk-app] #13191 not #13192
[mk-app] #13193 not #348
[begin-check] 1
[inst-discovered] theory-solving 0x0 basic# ; #1047
[mk-app] #1998 = #1047 #1047
[instance] 0x0 #1998
[attach-enode] #1998 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #747
[mk-app] #1998 = #747 #747
[instance] 0x0 #1998
[attach-enode] #1998 0
[end-of-instance]
[mk-app] #1998 or #748 #1
[inst-discovered] theory-solving 0x0 basic# ; #1998
[mk-app] #11002 = #1998 #1
[instance] 0x0 #11002
[attach-enode] #11002 0
[end-of-instance]
[mk-app] #1998 or #735 #1
[inst-discovered] theory-solving 0x0 basic# ; #1998
[mk-app] #11002 = #1998 #1
[instance] 0x0 #11002
[attach-enode] #11002 0
[end-of-instance]
[mk-app] #1998 = #3872 #3872
[inst-discovered] theory-solving 0x0 arith# ; #1998
[mk-app] #11002 = #1998 #1
[instance] 0x0 #11002
[attach-enode] #11002 0
[end-of-instance]
[mk-app] #1998 or #738 #1
[inst-discovered] theory-solving 0x0 basic# ; #1998
[mk-app] #11002 = #1998 #1
[instance] 0x0 #11002
[attach-enode] #11002 0
[end-of-instance]
[mk-app] #1998 and #1 #1
[inst-discovered] theory-solving 0x0 basic# ; #1998
[mk-app] #11002 = #1998 #1
[instance] 0x0 #11002
[attach-enode] #11002 0
[end-of-instance]
[mk-app] #1998 or #694 #1
[inst-discovered] theory-solving 0x0 basic# ; #1998
[mk-app] #11002 = #1998 #1
[instance] 0x0 #11002
[attach-enode] #11002 0
[end-of-instance]
[mk-app] #1998 and #1 #1 #1
[inst-discovered] theory-solving 0x0 basic# ; #1998
[mk-app] #11002 = #1998 #1
[instance] 0x0 #11002
[attach-enode] #11002 0
[end-of-instance]
[mk-app] #1998 or #726 #1
[inst-discovered] theory-solving 0x0 basic# ; #1998
[mk-app] #11002 = #1998 #1
[instance] 0x0 #11002
[attach-enode] #11002 0
[end-of-instance]
[mk-app] #1998 and #1 #1 #1 #1 #1 #719
[inst-discovered] theory-solving 0x0 basic# ; #1998
[mk-app] #11002 = #1998 #719
[instance] 0x0 #11002
[attach-enode] #11002 0
[end-of-instance]
[mk-app] #1998 or #3550 #718 #3364
[mk-app] #11002 or #3550 #719
[inst-discovered] theory-solving 0x0 basic# ; #11002
[mk-app] #1182 = #11002 #1998
[instance] 0x0 #1182
[attach-enode] #1182 0
[end-of-instance]
[mk-app] #11002 and #747 #1998
[mk-app] #1182 or #704 #695 #11002 #3278
[inst-discovered] theory-solving 0x0 basic# ; #1182
[mk-app] #1152 = #1182 #1182
[instance] 0x0 #1152
[attach-enode] #1152 0
[end-of-instance]
[mk-app] #1152 and #1117 #1182
[mk-app] #13190 or #649 #650 #685 #1152
[inst-discovered] theory-solving 0x0 basic# ; #13190
[mk-app] #13189 = #13190 #13190
[instance] 0x0 #13189
[attach-enode] #13189 0
[end-of-instance]
[mk-app] #13189 and #1136 #13190
[mk-app] #13188 or #657 #655 #672 #673 #671 #13189
[inst-discovered] theory-solving 0x0 basic# ; #13188
[mk-app] #76 = #13188 #13188
[instance] 0x0 #76
[attach-enode] #76 0
[end-of-instance]
[mk-app] #76 or #658 #1
[inst-discovered] theory-solving 0x0 basic# ; #76
[mk-app] #77 = #76 #1
[instance] 0x0 #77
[attach-enode] #77 0
[end-of-instance]
[mk-app] #76 or #639 #1
[inst-discovered] theory-solving 0x0 basic# ; #76
[mk-app] #77 = #76 #1
[instance] 0x0 #77
[attach-enode] #77 0
[end-of-instance]
[mk-app] #76 or #432 #1
[inst-discovered] theory-solving 0x0 basic# ; #76
[mk-app] #77 = #76 #1
[instance] 0x0 #77
[attach-enode] #77 0
[end-of-instance]
[mk-app] #76 or #434 #1
[inst-discovered] theory-solving 0x0 basic# ; #76
[mk-app] #77 = #76 #1
[instance] 0x0 #77
[attach-enode] #77 0
[end-of-instance]
[mk-app] #76 or #457 #1
[inst-discovered] theory-solving 0x0 basic# ; #76
[mk-app] #77 = #76 #1
[instance] 0x0 #77
[attach-enode] #77 0
[end-of-instance]
[mk-app] #76 and #1 #1 #1 #1 #1 #452
[inst-discovered] theory-solving 0x0 basic# ; #76
[mk-app] #77 = #76 #452
[instance] 0x0 #77
[attach-enode] #77 0
[end-of-instance]
[mk-app] #76 or #1160 #404 #3364
[mk-app] #77 or #1160 #452
[inst-discovered] theory-solving 0x0 basic# ; #77
[mk-app] #75 = #77 #76
[instance] 0x0 #75
[attach-enode] #75 0
[end-of-instance]
[mk-app] #77 and #13188 #76
[mk-app] #75 or #436 #1
[inst-discovered] theory-solving 0x0 basic# ; #75
[mk-app] #13192 = #75 #1
[instance] 0x0 #13192
[attach-enode] #13192 0
[end-of-instance]
[mk-app] #75 or #438 #1
[inst-discovered] theory-solving 0x0 basic# ; #75
[mk-app] #13192 = #75 #1
[instance] 0x0 #13192
[attach-enode] #13192 0
[end-of-instance]
[mk-app] #75 and #406 #408
[mk-app] #13192 and #406 #408 #1
[inst-discovered] theory-solving 0x0 basic# ; #13192
[mk-app] #13191 = #13192 #75
[instance] 0x0 #13191
[attach-enode] #13191 0
[end-of-instance]
[mk-app] #13192 or #374 #75
[mk-app] #13191 and #2982 #447 #430 #13192 #377
[mk-app] #13194 and #2982 #447 #430 #1 #1 #13192 #377
[inst-discovered] theory-solving 0x0 basic# ; #13194
[mk-app] #13195 = #13194 #13191
[instance] 0x0 #13195
[attach-enode] #13195 0
[end-of-instance]
[mk-app] #13194 or #154 #77 #13191
[mk-app] #13195 and #1261 #13194
[mk-app] #13196 not #13195
[inst-discovered] theory-solving 0x0 basic# ; #1047
[mk-app] #1269 = #1047 #1047
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #747
[mk-app] #1269 = #747 #747
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1998
[mk-app] #1269 = #1998 #1998
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1182
[mk-app] #1269 = #1182 #1182
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13190
[mk-app] #1269 = #13190 #13190
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13188
[mk-app] #1269 = #13188 #13188
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1047
[mk-app] #1269 = #1047 #1047
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #747
[mk-app] #1269 = #747 #747
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1998
[mk-app] #1269 = #1998 #1998
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1182
[mk-app] #1269 = #1182 #1182
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13190
[mk-app] #1269 = #13190 #13190
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13188
[mk-app] #1269 = #13188 #13188
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1047
[mk-app] #1269 = #1047 #1047
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #747
[mk-app] #1269 = #747 #747
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1998
[mk-app] #1269 = #1998 #1998
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1182
[mk-app] #1269 = #1182 #1182
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13190
[mk-app] #1269 = #13190 #13190
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13188
[mk-app] #1269 = #13188 #13188
[instance] 0x0 #1269
[attach-enode] #1269 0
[end-of-instance]
[mk-app] #1269 not #3556
[mk-app] #1782 or #1269 #3557
[mk-app] #748 not #1782
[inst-discovered] theory-solving 0x0 basic# ; #3550
[mk-app] #749 = #3550 #748
[instance] 0x0 #749
[attach-enode] #749 0
[end-of-instance]
[mk-app] #749 not #748
[inst-discovered] theory-solving 0x0 basic# ; #749
[mk-app] #735 = #749 #1782
[instance] 0x0 #735
[attach-enode] #735 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1047
[mk-app] #749 = #1047 #1047
[instance] 0x0 #749
[attach-enode] #749 0
[end-of-instance]
[mk-app] #749 not #1084
[mk-app] #735 not #1047
[mk-app] #737 or #749 #735
[mk-app] #738 not #737
[inst-discovered] theory-solving 0x0 basic# ; #782
[mk-app] #739 = #782 #738
[instance] 0x0 #739
[attach-enode] #739 0
[end-of-instance]
[mk-app] #739 or #1269 #3557 #746 #784 #785 #783 #738
[mk-app] #694 or #1782 #746 #784 #785 #783 #738
[inst-discovered] theory-solving 0x0 basic# ; #694
[mk-app] #725 = #694 #739
[instance] 0x0 #725
[attach-enode] #725 0
[end-of-instance]
[mk-app] #694 or #748 #718 #3364
[inst-discovered] theory-solving 0x0 basic# ; #694
[mk-app] #725 = #694 #694
[instance] 0x0 #725
[attach-enode] #725 0
[end-of-instance]
[mk-app] #725 not #739
[mk-app] #726 not #694
[mk-app] #683 or #725 #726
[mk-app] #719 not #683
[mk-app] #710 and #739 #694
[inst-discovered] theory-solving 0x0 basic# ; #710
[mk-app] #711 = #710 #719
[instance] 0x0 #711
[attach-enode] #711 0
[end-of-instance]
[mk-app] #710 or #3450 #2982
[mk-app] #711 not #710
[inst-discovered] theory-solving 0x0 basic# ; #3278
[mk-app] #703 = #3278 #711
[instance] 0x0 #703
[attach-enode] #703 0
[end-of-instance]
[mk-app] #703 or #704 #695 #719 #711
[inst-discovered] theory-solving 0x0 basic# ; #703
[mk-app] #684 = #703 #703
[instance] 0x0 #684
[attach-enode] #684 0
[end-of-instance]
[mk-app] #684 not #1117
[mk-app] #696 not #703
[mk-app] #670 or #684 #696
[mk-app] #656 not #670
[mk-app] #636 and #1117 #703
[inst-discovered] theory-solving 0x0 basic# ; #636
[mk-app] #658 = #636 #656
[instance] 0x0 #658
[attach-enode] #658 0
[end-of-instance]
[mk-app] #636 or #649 #650 #685 #656
[inst-discovered] theory-solving 0x0 basic# ; #636
[mk-app] #658 = #636 #636
[instance] 0x0 #658
[attach-enode] #658 0
[end-of-instance]
[mk-app] #658 not #1136
[mk-app] #637 not #636
[mk-app] #639 or #658 #637
[mk-app] #640 not #639
[mk-app] #432 and #1136 #636
[inst-discovered] theory-solving 0x0 basic# ; #432
[mk-app] #433 = #432 #640
[instance] 0x0 #433
[attach-enode] #433 0
[end-of-instance]
[mk-app] #432 or #657 #655 #672 #673 #671 #640
[inst-discovered] theory-solving 0x0 basic# ; #432
[mk-app] #433 = #432 #432
[instance] 0x0 #433
[attach-enode] #433 0
[end-of-instance]
[mk-app] #433 not #432
[mk-app] #434 not #76
[mk-app] #456 or #433 #434
[mk-app] #457 not #456
[mk-app] #402 and #432 #76
[inst-discovered] theory-solving 0x0 basic# ; #402
[mk-app] #452 = #402 #457
[instance] 0x0 #452
[attach-enode] #452 0
[end-of-instance]
[mk-app] #402 not #406
[mk-app] #452 not #408
[mk-app] #453 or #402 #452
[mk-app] #371 not #453
[inst-discovered] theory-solving 0x0 basic# ; #75
[mk-app] #373 = #75 #371
[instance] 0x0 #373
[attach-enode] #373 0
[end-of-instance]
[mk-app] #373 or #374 #371
[mk-app] #436 not #447
[mk-app] #437 not #430
[mk-app] #438 not #373
[mk-app] #439 not #377
[mk-app] #365 or #3277 #436 #437 #438 #439
[mk-app] #375 not #365
[mk-app] #347 and #2982 #447 #430 #373 #377
[inst-discovered] theory-solving 0x0 basic# ; #347
[mk-app] #155 = #347 #375
[instance] 0x0 #155
[attach-enode] #155 0
[end-of-instance]
[mk-app] #347 or #154 #457 #375
[inst-discovered] theory-solving 0x0 basic# ; #347
[mk-app] #155 = #347 #347
[instance] 0x0 #155
[attach-enode] #155 0
[end-of-instance]
[mk-app] #155 not #1261
[mk-app] #348 not #347
[mk-app] #13193 or #155 #348
[mk-app] #13197 not #13193
[mk-app] #13198 and #1261 #347
[inst-discovered] theory-solving 0x0 basic# ; #13198
[mk-app] #13199 = #13198 #13197
[instance] 0x0 #13199
[attach-enode] #13199 0
[end-of-instance]
[mk-app] #13198 not #13197
[inst-discovered] theory-solving 0x0 basic# ; #13198
[mk-app] #13199 = #13198 #13193
[instance] 0x0 #13199
[attach-enode] #13199 0
[end-of-instance]
[mk-app] #782 or #746 #784
[mk-app] #747 or #785 #783
[mk-app] #1998 or #1782 #782
[mk-app] #11002 or #747 #738
[mk-app] #1182 or #1998 #11002
[mk-app] #1152 not #1182
[mk-app] #13190 or #748 #718
[mk-app] #13189 or #13190 #3364
[mk-app] #13188 not #13189
[mk-app] #77 or #1152 #13188
[mk-app] #75 not #77
[mk-app] #13192 or #704 #695
[mk-app] #13191 or #75 #711
[mk-app] #13194 or #13192 #13191
[mk-app] #13195 not #13194
[mk-app] #13196 or #684 #13195
[mk-app] #13197 not #13196
[mk-app] #13198 or #649 #650
[mk-app] #13199 or #685 #13197
[mk-app] #13200 or #13198 #13199
[mk-app] #13201 not #13200
[mk-app] #13202 or #658 #13201
[mk-app] #13203 not #13202
[mk-app] #13204 or #657 #655
[mk-app] #13205 or #672 #673
[mk-app] #13206 or #671 #13203
[mk-app] #13207 or #13204 #13205
[mk-app] #13208 or #13207 #13206
[mk-app] #13209 not #13208
[mk-app] #13210 or #1160 #404
[mk-app] #13211 or #13210 #3364
[mk-app] #13212 not #13211
[mk-app] #13213 or #13209 #13212
[mk-app] #13214 not #13213
[mk-app] #13215 or #3277 #436
[mk-app] #13216 or #437 #438
[mk-app] #13217 or #13215 #13216
[mk-app] #13218 or #13217 #439
[mk-app] #13219 not #13218
[mk-app] #13220 or #154 #13214
[mk-app] #13221 or #13220 #13219
[mk-app] #13222 not #13221
[mk-app] #13223 or #155 #13222
[mk-app] #739 or #657 #655 #672 #673
[inst-discovered] theory-solving 0x0 basic# ; #13207
[mk-app] #725 = #13207 #739
[instance] 0x0 #725
[attach-enode] #725 0
[end-of-instance]
[mk-app] #725 or #1269 #3557 #746 #784
[inst-discovered] theory-solving 0x0 basic# ; #1998
[mk-app] #694 = #1998 #725
[instance] 0x0 #694
[attach-enode] #694 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #1047
[mk-app] #694 = #1047 #1047
[instance] 0x0 #694
[attach-enode] #694 0
[end-of-instance]
[mk-app] #694 or #785 #783 #738
[inst-discovered] theory-solving 0x0 basic# ; #11002
[mk-app] #726 = #11002 #694
[instance] 0x0 #726
[attach-enode] #726 0
[end-of-instance]
[mk-app] #726 or #1269 #3557 #746 #784 #785 #783 #738
[mk-app] #683 or #725 #694
[inst-discovered] theory-solving 0x0 basic# ; #683
[mk-app] #719 = #683 #726
[instance] 0x0 #719
[attach-enode] #719 0
[end-of-instance]
[mk-app] #683 not #726
[inst-discovered] theory-solving 0x0 basic# ; #13190
[mk-app] #719 = #13190 #13190
[instance] 0x0 #719
[attach-enode] #719 0
[end-of-instance]
[mk-app] #719 or #748 #718 #3364
[inst-discovered] theory-solving 0x0 basic# ; #13189
[mk-app] #703 = #13189 #719
[instance] 0x0 #703
[attach-enode] #703 0
[end-of-instance]
[mk-app] #703 not #719
[mk-app] #696 or #683 #703
[inst-discovered] theory-solving 0x0 basic# ; #696
[mk-app] #670 = #696 #696
[instance] 0x0 #670
[attach-enode] #670 0
[end-of-instance]
[mk-app] #670 not #696
[mk-app] #656 or #670 #711
[inst-discovered] theory-solving 0x0 basic# ; #656
[mk-app] #636 = #656 #656
[instance] 0x0 #636
[attach-enode] #636 0
[end-of-instance]
[mk-app] #636 or #704 #695 #670 #711
[mk-app] #637 or #13192 #656
[inst-discovered] theory-solving 0x0 basic# ; #637
[mk-app] #639 = #637 #636
[instance] 0x0 #639
[attach-enode] #639 0
[end-of-instance]
[mk-app] #637 not #636
[mk-app] #639 or #684 #637
[mk-app] #640 not #639
[mk-app] #432 or #685 #640
[mk-app] #433 or #649 #650 #685 #640
[mk-app] #76 or #13198 #432
[inst-discovered] theory-solving 0x0 basic# ; #76
[mk-app] #434 = #76 #433
[instance] 0x0 #434
[attach-enode] #434 0
[end-of-instance]
[mk-app] #76 not #433
[mk-app] #434 or #658 #76
[mk-app] #456 not #434
[mk-app] #457 or #671 #456
[mk-app] #365 or #657 #655 #672 #673 #671 #456
[mk-app] #375 or #739 #457
[inst-discovered] theory-solving 0x0 basic# ; #375
[mk-app] #347 = #375 #365
[instance] 0x0 #347
[attach-enode] #347 0
[end-of-instance]
[mk-app] #375 not #365
[mk-app] #347 or #1160 #404 #3364
[inst-discovered] theory-solving 0x0 basic# ; #13211
[mk-app] #348 = #13211 #347
[instance] 0x0 #348
[attach-enode] #348 0
[end-of-instance]
[mk-app] #348 not #347
[mk-app] #13193 or #375 #348
[inst-discovered] theory-solving 0x0 basic# ; #13193
[mk-app] #13224 = #13193 #13193
[instance] 0x0 #13224
[attach-enode] #13224 0
[end-of-instance]
[mk-app] #13224 not #13193
[mk-app] #13225 or #154 #13224
[inst-discovered] theory-solving 0x0 basic# ; #453
[mk-app] #13226 = #453 #453
[instance] 0x0 #13226
[attach-enode] #13226 0
[end-of-instance]
[mk-app] #13226 or #3277 #436 #437 #438
[inst-discovered] theory-solving 0x0 basic# ; #13217
[mk-app] #13227 = #13217 #13226
[instance] 0x0 #13227
[attach-enode] #13227 0
[end-of-instance]
[mk-app] #13227 or #3277 #436 #437 #438 #439
[mk-app] #13228 or #13226 #439
[inst-discovered] theory-solving 0x0 basic# ; #13228
[mk-app] #13229 = #13228 #13227
[instance] 0x0 #13229
[attach-enode] #13229 0
[end-of-instance]
[mk-app] #13228 not #13227
[mk-app] #13229 or #154 #13224 #13228
[mk-app] #13230 or #13225 #13228
[inst-discovered] theory-solving 0x0 basic# ; #13230
[mk-app] #13231 = #13230 #13229
[instance] 0x0 #13231
[attach-enode] #13231 0
[end-of-instance]
[mk-app] #13230 not #13229
[mk-app] #13231 or #155 #13230
[inst-discovered] theory-solving 0x0 basic# ; #726
[mk-app] #13221 = #726 #726
[instance] 0x0 #13221
[attach-enode] #13221 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #719
[mk-app] #13221 = #719 #719
[instance] 0x0 #13221
[attach-enode] #13221 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #696
[mk-app] #13221 = #696 #696
[instance] 0x0 #13221
[attach-enode] #13221 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #636
[mk-app] #13221 = #636 #636
[instance] 0x0 #13221
[attach-enode] #13221 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #433
[mk-app] #13221 = #433 #433
[instance] 0x0 #13221
[attach-enode] #13221 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #365
[mk-app] #13221 = #365 #365
[instance] 0x0 #13221
[attach-enode] #13221 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13193
[mk-app] #13221 = #13193 #13193
[instance] 0x0 #13221
[attach-enode] #13221 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13227
[mk-app] #13221 = #13227 #13227
[instance] 0x0 #13221
[attach-enode] #13221 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13229
[mk-app] #13221 = #13229 #13229
[instance] 0x0 #13221
[attach-enode] #13221 0
[end-of-instance]
[mk-app] #13221 or #155 #3711
[mk-app] #13222 or #155 #13193
[mk-app] #13223 or #155 #13227
[mk-app] #13229 or #3711 #3725
[mk-app] #13230 not #3726
[mk-app] #13231 or #3711 #13230
[mk-app] #13232 or #13193 #3725
[mk-app] #13233 or #13193 #13230
[mk-app] #13234 or #13227 #3725
[mk-app] #13235 or #13227 #13230
[assign] #22 justification -1: 
[attach-enode] #4160 0
[assign] #11172 justification -1: 
[attach-enode] #11162 0
[attach-enode] #11173 0
[assign] #11173 justification -1: 
[attach-enode] #11174 0
[attach-enode] #11175 0
[assign] #11175 justification -1: 
[attach-enode] #11176 0
[attach-enode] #11178 0
[attach-enode] #11179 0
[assign] #11179 justification -1: 
[attach-enode] #11180 0
[attach-enode] #11181 0
[attach-enode] #7229 0
[attach-enode] #7230 0
[attach-enode] #11168 0
[assign] #11168 justification -1: 
[attach-enode] #4114 0
[attach-enode] #4133 0
[assign] #4133 justification -1: 
[attach-enode] #4128 0
[attach-enode] #4112 0
[assign] #4112 justification -1: 
[attach-enode] #4115 0
[mk-app] #13224 u_tokenizer!lex.Step./Step/?tok #4115
[mk-app] #13228 u_tokenizer!lex.Step./Step/?ok #4115
[mk-app] #457 u_tokenizer!lex.Step./Step/?next #4115
[mk-app] #13225 u_tokenizer!lex.Step./Step #13224 #13228 #457
[attach-enode] #13224 0
[attach-enode] #13228 0
[attach-enode] #457 0
[attach-enode] #13225 0
[mk-app] #13226 u_tokenizer!lex.Step./Step/?tok #13225
[mk-app] #739 = #13224 #13226
[new-match] 0 datatype#141 datatype#138 #13224 #13228 #457 ; #13225
[instance] 0 #739
[attach-enode] #13226 0
[end-of-instance]
[mk-app] #739 u_tokenizer!lex.Step./Step/?ok #13225
[mk-app] #694 = #13228 #739
[new-match] 0 datatype#144 datatype#138 #13224 #13228 #457 ; #13225
[instance] 0 #694
[attach-enode] #739 0
[end-of-instance]
[mk-app] #694 u_tokenizer!lex.Step./Step/?next #13225
[mk-app] #656 = #457 #694
[new-match] 0 datatype#147 datatype#138 #13224 #13228 #457 ; #13225
[instance] 0 #656
[attach-enode] #694 0
[end-of-instance]
[attach-enode] #4113 0
[attach-enode] #4117 0
[assign] #4117 justification -1: 
[attach-enode] #4082 0
[mk-app] #656 u_tokenizer!lex.Step./Step/?tok #4082
[mk-app] #432 u_tokenizer!lex.Step./Step/?ok #4082
[mk-app] #725 u_tokenizer!lex.Step./Step/?next #4082
[mk-app] #1260 u_tokenizer!lex.Step./Step #656 #432 #725
[attach-enode] #656 0
[attach-enode] #432 0
[attach-enode] #725 0
[attach-enode] #1260 0
[mk-app] #1261 u_tokenizer!lex.Step./Step/?tok #1260
[mk-app] #155 = #656 #1261
[new-match] 0 datatype#141 datatype#138 #656 #432 #725 ; #1260
[instance] 0 #155
[attach-enode] #1261 0
[end-of-instance]
[mk-app] #155 u_tokenizer!lex.Step./Step/?ok #1260
[mk-app] #13223 = #432 #155
[new-match] 0 datatype#144 datatype#138 #656 #432 #725 ; #1260
[instance] 0 #13223
[attach-enode] #155 0
[end-of-instance]
[mk-app] #13223 u_tokenizer!lex.Step./Step/?next #1260
[mk-app] #13222 = #725 #13223
[new-match] 0 datatype#147 datatype#138 #656 #432 #725 ; #1260
[instance] 0 #13222
[attach-enode] #13223 0
[end-of-instance]
[attach-enode] #4096 0
[attach-enode] #4095 0
[assign] #4095 justification -1: 
[attach-enode] #4098 0
[mk-app] #13222 u_tokenizer!lex.Step./Step/?tok #4098
[mk-app] #13221 u_tokenizer!lex.Step./Step/?ok #4098
[mk-app] #13236 u_tokenizer!lex.Step./Step/?next #4098
[mk-app] #13237 u_tokenizer!lex.Step./Step #13222 #13221 #13236
[attach-enode] #13222 0
[attach-enode] #13221 0
[attach-enode] #13236 0
[attach-enode] #13237 0
[mk-app] #13238 u_tokenizer!lex.Step./Step/?tok #13237
[mk-app] #13239 = #13222 #13238
[new-match] 0 datatype#141 datatype#138 #13222 #13221 #13236 ; #13237
[instance] 0 #13239
[attach-enode] #13238 0
[end-of-instance]
[mk-app] #13239 u_tokenizer!lex.Step./Step/?ok #13237
[mk-app] #13240 = #13221 #13239
[new-match] 0 datatype#144 datatype#138 #13222 #13221 #13236 ; #13237
[instance] 0 #13240
[attach-enode] #13239 0
[end-of-instance]
[mk-app] #13240 u_tokenizer!lex.Step./Step/?next #13237
[mk-app] #13241 = #13236 #13240
[new-match] 0 datatype#147 datatype#138 #13222 #13221 #13236 ; #13237
[instance] 0 #13241
[attach-enode] #13240 0
[end-of-instance]
[attach-enode] #4083 0
[attach-enode] #4084 0
[assign] #4084 justification -1: 
[attach-enode] #4074 0
[assign] #4075 justification -1: 
[attach-enode] #4072 0
[assign] #4033 justification -1: 
[attach-enode] #4066 0
[assign] #4048 justification -1: 
[attach-enode] #4045 0
[assign] #4004 justification -1: 
[attach-enode] #4035 0
[assign] #4008 justification -1: 
[attach-enode] #4006 0
[mk-app] #13241 u_tokenizer!error.SourceRange./SourceRange/?start #4006
[mk-app] #13242 u_tokenizer!error.SourceRange./SourceRange/?end #4006
[mk-app] #13243 u_tokenizer!error.SourceRange./SourceRange #13241 #13242
[attach-enode] #13241 0
[attach-enode] #13242 0
[attach-enode] #13243 0
[mk-app] #13244 u_tokenizer!error.SourceRange./SourceRange/?start #13243
[mk-app] #13245 = #13241 #13244
[new-match] 0 datatype#170 datatype#167 #13241 #13242 ; #13243
[instance] 0 #13245
[attach-enode] #13244 0
[end-of-instance]
[mk-app] #13245 u_tokenizer!error.SourceRange./SourceRange/?end #13243
[mk-app] #13246 = #13242 #13245
[new-match] 0 datatype#173 datatype#167 #13241 #13242 ; #13243
[instance] 0 #13246
[attach-enode] #13245 0
[end-of-instance]
[attach-enode] #4007 0
[attach-enode] #4000 0
[assign] #4000 justification -1: 
[attach-enode] #3984 0
[attach-enode] #3969 0
[assign] #3969 justification -1: 
[attach-enode] #3971 0
[attach-enode] #3973 0
[assign] #3973 justification -1: 
[attach-enode] #3897 0
[attach-enode] #3948 0
[assign] #3948 justification -1: 
[attach-enode] #3949 0
[attach-enode] #3951 0
[attach-enode] #3950 0
[assign] #3950 justification -1: 
[attach-enode] #3947 0
[attach-enode] #3935 0
[assign] #3935 justification -1: 
[attach-enode] #3936 0
[attach-enode] #3900 0
[assign] #3900 justification -1: 
[attach-enode] #3922 0
[attach-enode] #3923 0
[attach-enode] #3924 0
[assign] #3924 justification -1: 
[attach-enode] #3911 0
[attach-enode] #3912 0
[attach-enode] #3902 0
[attach-enode] #3903 0
[attach-enode] #11001 0
[assign] #11001 justification -1: 
[attach-enode] #3872 0
[mk-app] #13246 = #1999 #3873
[mk-app] #13247 = #1999 #3831
[attach-enode] #1999 0
[attach-enode] #3865 0
[attach-enode] #3873 0
[attach-enode] #363 0
[attach-enode] #529 0
[attach-enode] #530 0
[attach-enode] #289 0
[attach-enode] #3838 0
[attach-enode] #3839 0
[attach-enode] #8401 0
[attach-enode] #8402 0
[attach-enode] #3831 0
[attach-enode] #13246 0
[attach-enode] #13247 0
[attach-enode] #1903 0
[assign] #1903 justification -1: 
[assign] #1904 justification -1: 
[assign] #1905 justification -1: 
[mk-app] #13248 = #1783 #3873
[mk-app] #13249 = #1783 #3838
[attach-enode] #1783 0
[attach-enode] #13248 0
[attach-enode] #13249 0
[attach-enode] #3764 0
[attach-enode] #1784 0
[attach-enode] #1785 0
[assign] #1768 justification -1: 
[attach-enode] #1769 0
[attach-enode] #1770 0
[assign] #1771 justification -1: 
[attach-enode] #1270 0
[assign] #1259 justification -1: 
[attach-enode] #3740 0
[attach-enode] #3732 0
[attach-enode] #3733 0
[assign] #3733 justification -1: 
[attach-enode] #3719 0
[attach-enode] #3711 0
[attach-enode] #3726 0
[attach-enode] #1160 0
[attach-enode] #3682 0
[attach-enode] #7289 0
[attach-enode] #3704 0
[attach-enode] #3705 0
[attach-enode] #3696 0
[attach-enode] #3697 0
[mk-app] #13250 tuple%2./tuple%2/?0 #3697
[mk-app] #13251 tuple%2./tuple%2/?1 #3697
[mk-app] #13252 tuple%2./tuple%2 #13250 #13251
[attach-enode] #13250 0
[attach-enode] #13251 0
[attach-enode] #13252 0
[mk-app] #13253 tuple%2./tuple%2/?0 #13252
[mk-app] #13254 = #13250 #13253
[new-match] 0 datatype#220 datatype#217 #13250 #13251 ; #13252
[instance] 0 #13254
[attach-enode] #13253 0
[end-of-instance]
[mk-app] #13254 tuple%2./tuple%2/?1 #13252
[mk-app] #13255 = #13251 #13254
[new-match] 0 datatype#223 datatype#217 #13250 #13251 ; #13252
[instance] 0 #13255
[attach-enode] #13254 0
[end-of-instance]
[attach-enode] #3683 0
[attach-enode] #3675 0
[attach-enode] #3676 0
[attach-enode] #3668 0
[attach-enode] #3669 0
[attach-enode] #3660 0
[attach-enode] #3661 0
[attach-enode] #3653 0
[mk-app] #13255 is #3653
[attach-enode] #13255 0
[attach-enode] #3654 0
[attach-enode] #3647 0
[attach-enode] #3640 0
[attach-enode] #3593 0
[attach-enode] #3594 0
[attach-enode] #3586 0
[attach-enode] #3587 0
[mk-app] #13256 is #3587
[attach-enode] #13256 0
[attach-enode] #3578 0
[attach-enode] #3481 0
[attach-enode] #3570 0
[attach-enode] #3571 0
[attach-enode] #3563 0
[attach-enode] #3564 0
[attach-enode] #3556 0
[attach-enode] #3557 0
[attach-enode] #3542 0
[attach-enode] #3543 0
[attach-enode] #3535 0
[attach-enode] #3536 0
[attach-enode] #3528 0
[attach-enode] #3529 0
[attach-enode] #3521 0
[attach-enode] #3522 0
[attach-enode] #3473 0
[attach-enode] #3474 0
[attach-enode] #3466 0
[attach-enode] #3459 0
[attach-enode] #3162 0
[attach-enode] #11007 0
[attach-enode] #3364 0
[attach-meaning] #363 arith (- 1)
[mk-app] #13257 >= #1770 #334
[attach-enode] #2975 0
[attach-enode] #2949 0
[attach-enode] #2951 0
[attach-enode] #2935 0
[attach-enode] #427 0
[attach-enode] #2908 0
[attach-enode] #395 0
[attach-enode] #405 0
[attach-enode] #407 0
[attach-enode] #11137 0
[attach-enode] #11141 0
[attach-enode] #11142 0
[attach-enode] #11143 0
[assign] #28 bin 1
[eq-expl] #11162 root
[eq-expl] #1403 root
[new-match] 3360791074 #1413 #1409 #11162 ; #11173 (#1403 #1403)
[eq-expl] #11174 root
[eq-expl] #1382 root
[new-match] 395465415 #1392 #1388 #11174 ; #11175 (#1382 #1382)
[eq-expl] #3840 root
[eq-expl] #7229 root
[eq-expl] #11181 root
[eq-expl] #7230 root
[new-match] 738555160 #1713 #1709 #11181 #7229 #3840 ; #11168 (#7230 #7230)
[eq-expl] #4113 root
[eq-expl] #2298 root
[new-match] 401459093 #2308 #2304 #4113 ; #4117 (#2298 #2298)
[eq-expl] #13224 ax ; #13226
[eq-expl] #13226 root
[eq-expl] #13228 ax ; #739
[eq-expl] #739 root
[eq-expl] #457 ax ; #694
[eq-expl] #694 root
[eq-expl] #4115 ax ; #13225
[eq-expl] #13225 root
[new-match] 569576805 #2322 #2318 #457 #13228 #13224 ; #4117 (#2298 #2298) (#4113 #4113) (#4115 #13225)
[eq-expl] #4096 root
[new-match] 2626591138 #2308 #2304 #4096 ; #4095 (#2298 #2298)
[eq-expl] #656 ax ; #1261
[eq-expl] #1261 root
[eq-expl] #432 ax ; #155
[eq-expl] #155 root
[eq-expl] #725 ax ; #13223
[eq-expl] #13223 root
[eq-expl] #4082 ax ; #1260
[eq-expl] #1260 root
[new-match] 1345659737 #2322 #2318 #725 #432 #656 ; #4095 (#2298 #2298) (#4096 #4096) (#4082 #1260)
[eq-expl] #4083 root
[new-match] 3292000496 #2308 #2304 #4083 ; #4084 (#2298 #2298)
[eq-expl] #13222 ax ; #13238
[eq-expl] #13238 root
[eq-expl] #13221 ax ; #13239
[eq-expl] #13239 root
[eq-expl] #13236 ax ; #13240
[eq-expl] #13240 root
[eq-expl] #4098 ax ; #13237
[eq-expl] #13237 root
[new-match] 2850262437 #2322 #2318 #13236 #13221 #13222 ; #4084 (#2298 #2298) (#4083 #4083) (#4098 #13237)
[eq-expl] #4007 root
[eq-expl] #2421 root
[new-match] 1319744657 #2431 #2427 #4007 ; #4000 (#2421 #2421)
[eq-expl] #13241 ax ; #13244
[eq-expl] #13244 root
[eq-expl] #13242 ax ; #13245
[eq-expl] #13245 root
[eq-expl] #4006 ax ; #13243
[eq-expl] #13243 root
[new-match] 488707170 #11627 #2438 #13242 #13241 ; #4000 (#2421 #2421) (#4007 #4007) (#4006 #13243)
[eq-expl] #3897 root
[eq-expl] #1361 root
[new-match] 1013408425 #1371 #1367 #3897 ; #3948 (#1361 #1361)
[eq-expl] #3947 root
[new-match] 2762591539 #1693 #1689 #3947 ; #3935 (#1683 #1683)
[eq-expl] #3936 root
[new-match] 2425907696 #1351 #1347 #3936 ; #3900 (#1341 #1341)
[eq-expl] #11180 root
[new-match] 805041292 #1702 #1701 #11180 ; #11181
[eq-expl] #270 root
[eq-expl] #4114 root
[new-match] 2924835665 #11540 #442 #4114 #270 ; #4133
[eq-expl] #3984 root
[new-match] 3186994755 #11540 #442 #3984 #270 ; #3969
[eq-expl] #3971 root
[new-match] 3394491065 #11540 #442 #3971 #270 ; #3973
[eq-expl] #4128 root
[new-match] 597755816 #11183 #454 #4128 ; #4112
[new-match] 3690985109 #2297 #2296 #4115 ; #4113
[new-match] 2686284981 #2297 #2296 #4082 ; #4096
[new-match] 2811730673 #2297 #2296 #4098 ; #4083
[new-match] 357426274 #2420 #2419 #4006 ; #4007
[eq-expl] #3922 root
[new-match] 3511662461 #1622 #1621 #3922 ; #3923
[eq-expl] #2 root
[eq-expl] #3204 lit #3205 ; #1463
[eq-expl] #1463 root
[eq-expl] #3912 root
[eq-expl] #3903 root
[new-match] 1335281923 #268 #267 #3903 #3912 #3204 #2 ; #11001
[eq-expl] #3902 root
[new-match] 4254909406 #1462 #1461 #3902 ; #3903
[eq-expl] #3911 root
[new-match] 2782599678 #1462 #1461 #3911 ; #3912
[new-match] 3302917279 #3884 #3879 #3903 #244 #120 ; #3865
[eq-expl] #3865 root
[eq-expl] #3764 root
[new-match] 582671231 #565 #557 #3764 #3865 ; #3732
[mk-app] #11212 not #11173
[mk-app] #4372 %Poly%alloc!vec.Vec<u_tokenizer!token.Token./alloc!alloc.Global.>. #11162
[mk-app] #4434 Poly%alloc!vec.Vec<u_tokenizer!token.Token./alloc!alloc.Global.>. #4372
[mk-app] #4455 = #11162 #4434
[mk-app] #4484 or #11212 #4455
[mk-app] #11241 not #1413
[mk-app] #11239 or #11241 #11212 #4455
[instance] 3360791074 ; 1
[attach-enode] #4372 1
[attach-enode] #4434 1
[attach-enode] #4455 1
[assign] #4455 justification -1: 468 1807
[end-of-instance]
[mk-app] #4625 not #11175
[mk-app] #4647 %Poly%alloc!vec.Vec<u_tokenizer!error.Error./alloc!alloc.Global.>. #11174
[mk-app] #4684 Poly%alloc!vec.Vec<u_tokenizer!error.Error./alloc!alloc.Global.>. #4647
[mk-app] #4656 = #11174 #4684
[mk-app] #4733 or #4625 #4656
[mk-app] #4556 not #1392
[mk-app] #11015 or #4556 #4625 #4656
[instance] 395465415 ; 1
[attach-enode] #4647 1
[attach-enode] #4684 1
[attach-enode] #4656 1
[assign] #4656 justification -1: 465 1808
[end-of-instance]
[mk-app] #4787 not #11168
[mk-app] #11273 %Poly%core!option.Option. #11181
[mk-app] #11264 Poly%core!option.Option. #11273
[mk-app] #4848 = #11181 #11264
[mk-app] #4871 or #4787 #4848
[mk-app] #4783 not #1713
[mk-app] #4885 or #4783 #4787 #4848
[instance] 738555160 ; 1
[attach-enode] #11273 1
[attach-enode] #11264 1
[attach-enode] #4848 1
[assign] #4848 justification -1: 513 1810
[end-of-instance]
[mk-app] #4938 not #4117
[mk-app] #5010 %Poly%u_tokenizer!lex.Step. #4113
[mk-app] #13258 Poly%u_tokenizer!lex.Step. #5010
[mk-app] #13259 = #4113 #13258
[mk-app] #13260 or #4938 #13259
[mk-app] #13261 not #2308
[mk-app] #13262 or #13261 #4938 #13259
[instance] 401459093 ; 1
[attach-enode] #5010 1
[mk-app] #13263 u_tokenizer!lex.Step./Step/?tok #5010
[mk-app] #13264 u_tokenizer!lex.Step./Step/?ok #5010
[mk-app] #13265 u_tokenizer!lex.Step./Step/?next #5010
[mk-app] #13266 u_tokenizer!lex.Step./Step #13263 #13264 #13265
[attach-enode] #13263 1
[attach-enode] #13264 1
[attach-enode] #13265 1
[attach-enode] #13266 1
[mk-app] #13267 u_tokenizer!lex.Step./Step/?tok #13266
[mk-app] #13268 = #13263 #13267
[new-match] 0 datatype#141 datatype#138 #13263 #13264 #13265 ; #13266
[instance] 0 #13268
[attach-enode] #13267 1
[end-of-instance]
[mk-app] #13268 u_tokenizer!lex.Step./Step/?ok #13266
[mk-app] #13269 = #13264 #13268
[new-match] 0 datatype#144 datatype#138 #13263 #13264 #13265 ; #13266
[instance] 0 #13269
[attach-enode] #13268 1
[end-of-instance]
[mk-app] #13269 u_tokenizer!lex.Step./Step/?next #13266
[mk-app] #13270 = #13265 #13269
[new-match] 0 datatype#147 datatype#138 #13263 #13264 #13265 ; #13266
[instance] 0 #13270
[attach-enode] #13269 1
[end-of-instance]
[attach-enode] #13258 1
[attach-enode] #13259 1
[assign] #13259 justification -1: 593 1815
[end-of-instance]
[mk-app] #13270 not #4095
[mk-app] #13271 %Poly%u_tokenizer!lex.Step. #4096
[mk-app] #13272 Poly%u_tokenizer!lex.Step. #13271
[mk-app] #13273 = #4096 #13272
[mk-app] #13274 or #13270 #13273
[mk-app] #13275 or #13261 #13270 #13273
[instance] 2626591138 ; 1
[attach-enode] #13271 1
[mk-app] #13276 u_tokenizer!lex.Step./Step/?tok #13271
[mk-app] #13277 u_tokenizer!lex.Step./Step/?ok #13271
[mk-app] #13278 u_tokenizer!lex.Step./Step/?next #13271
[mk-app] #13279 u_tokenizer!lex.Step./Step #13276 #13277 #13278
[attach-enode] #13276 1
[attach-enode] #13277 1
[attach-enode] #13278 1
[attach-enode] #13279 1
[mk-app] #13280 u_tokenizer!lex.Step./Step/?tok #13279
[mk-app] #13281 = #13276 #13280
[new-match] 0 datatype#141 datatype#138 #13276 #13277 #13278 ; #13279
[instance] 0 #13281
[attach-enode] #13280 1
[end-of-instance]
[mk-app] #13281 u_tokenizer!lex.Step./Step/?ok #13279
[mk-app] #13282 = #13277 #13281
[new-match] 0 datatype#144 datatype#138 #13276 #13277 #13278 ; #13279
[instance] 0 #13282
[attach-enode] #13281 1
[end-of-instance]
[mk-app] #13282 u_tokenizer!lex.Step./Step/?next #13279
[mk-app] #13283 = #13278 #13282
[new-match] 0 datatype#147 datatype#138 #13276 #13277 #13278 ; #13279
[instance] 0 #13283
[attach-enode] #13282 1
[end-of-instance]
[attach-enode] #13272 1
[attach-enode] #13273 1
[assign] #13273 justification -1: 593 1818
[end-of-instance]
[mk-app] #13283 not #4084
[mk-app] #13284 %Poly%u_tokenizer!lex.Step. #4083
[mk-app] #13285 Poly%u_tokenizer!lex.Step. #13284
[mk-app] #13286 = #4083 #13285
[mk-app] #13287 or #13283 #13286
[mk-app] #13288 or #13261 #13283 #13286
[instance] 3292000496 ; 1
[attach-enode] #13284 1
[mk-app] #13289 u_tokenizer!lex.Step./Step/?tok #13284
[mk-app] #13290 u_tokenizer!lex.Step./Step/?ok #13284
[mk-app] #13291 u_tokenizer!lex.Step./Step/?next #13284
[mk-app] #13292 u_tokenizer!lex.Step./Step #13289 #13290 #13291
[attach-enode] #13289 1
[attach-enode] #13290 1
[attach-enode] #13291 1
[attach-enode] #13292 1
[mk-app] #13293 u_tokenizer!lex.Step./Step/?tok #13292
[mk-app] #13294 = #13289 #13293
[new-match] 0 datatype#141 datatype#138 #13289 #13290 #13291 ; #13292
[instance] 0 #13294
[attach-enode] #13293 1
[end-of-instance]
[mk-app] #13294 u_tokenizer!lex.Step./Step/?ok #13292
[mk-app] #13295 = #13290 #13294
[new-match] 0 datatype#144 datatype#138 #13289 #13290 #13291 ; #13292
[instance] 0 #13295
[attach-enode] #13294 1
[end-of-instance]
[mk-app] #13295 u_tokenizer!lex.Step./Step/?next #13292
[mk-app] #13296 = #13291 #13295
[new-match] 0 datatype#147 datatype#138 #13289 #13290 #13291 ; #13292
[instance] 0 #13296
[attach-enode] #13295 1
[end-of-instance]
[attach-enode] #13285 1
[attach-enode] #13286 1
[assign] #13286 justification -1: 593 1821
[end-of-instance]
[mk-app] #13296 not #4000
[mk-app] #13297 %Poly%u_tokenizer!error.SourceRange. #4007
[mk-app] #13298 Poly%u_tokenizer!error.SourceRange. #13297
[mk-app] #13299 = #4007 #13298
[mk-app] #13300 or #13296 #13299
[mk-app] #13301 not #2431
[mk-app] #13302 or #13301 #13296 #13299
[instance] 1319744657 ; 1
[attach-enode] #13297 1
[mk-app] #13303 u_tokenizer!error.SourceRange./SourceRange/?start #13297
[mk-app] #13304 u_tokenizer!error.SourceRange./SourceRange/?end #13297
[mk-app] #13305 u_tokenizer!error.SourceRange./SourceRange #13303 #13304
[attach-enode] #13303 1
[attach-enode] #13304 1
[attach-enode] #13305 1
[mk-app] #13306 u_tokenizer!error.SourceRange./SourceRange/?start #13305
[mk-app] #13307 = #13303 #13306
[new-match] 0 datatype#170 datatype#167 #13303 #13304 ; #13305
[instance] 0 #13307
[attach-enode] #13306 1
[end-of-instance]
[mk-app] #13307 u_tokenizer!error.SourceRange./SourceRange/?end #13305
[mk-app] #13308 = #13304 #13307
[new-match] 0 datatype#173 datatype#167 #13303 #13304 ; #13305
[instance] 0 #13308
[attach-enode] #13307 1
[end-of-instance]
[attach-enode] #13298 1
[attach-enode] #13299 1
[assign] #13299 justification -1: 610 1827
[end-of-instance]
[mk-app] #13308 not #3948
[mk-app] #13309 %Poly%alloc!vec.Vec<alloc!string.String./alloc!alloc.Global.>. #3897
[mk-app] #13310 Poly%alloc!vec.Vec<alloc!string.String./alloc!alloc.Global.>. #13309
[mk-app] #13311 = #3897 #13310
[mk-app] #13312 or #13308 #13311
[mk-app] #13313 not #1371
[mk-app] #13314 or #13313 #13308 #13311
[instance] 1013408425 ; 1
[attach-enode] #13309 1
[attach-enode] #13310 1
[attach-enode] #13311 1
[assign] #13311 justification -1: 462 1830
[end-of-instance]
[mk-app] #13315 not #3935
[mk-app] #13316 %Poly%strslice%. #3947
[mk-app] #13317 Poly%strslice%. #13316
[mk-app] #13318 = #3947 #13317
[mk-app] #13319 or #13315 #13318
[mk-app] #13320 not #1693
[mk-app] #13321 or #13320 #13315 #13318
[instance] 2762591539 ; 1
[attach-enode] #13316 1
[attach-enode] #13317 1
[attach-enode] #13318 1
[assign] #13318 justification -1: 510 1832
[end-of-instance]
[mk-app] #13322 not #3900
[mk-app] #13323 %Poly%alloc!string.String. #3936
[mk-app] #13324 Poly%alloc!string.String. #13323
[mk-app] #13325 = #3936 #13324
[mk-app] #13326 or #13322 #13325
[mk-app] #13327 not #1351
[mk-app] #13328 or #13327 #13322 #13325
[instance] 2425907696 ; 1
[attach-enode] #13323 1
[attach-enode] #13324 1
[attach-enode] #13325 1
[assign] #13325 justification -1: 459 1833
[end-of-instance]
[mk-app] #13329 = #11180 #11273
[mk-app] #13330 not #1702
[mk-app] #13331 or #13330 #13329
[instance] 805041292 ; 1
[attach-enode] #13329 1
[assign] #13329 justification -1: 512
[end-of-instance]
[mk-app] #13332 >= #4114 #334
[mk-app] #13333 not #13332
[mk-app] #13334 * #363 #284
[mk-app] #13335 + #4114 #13334
[mk-app] #13336 >= #13335 #334
[mk-app] #13337 or #13333 #13336
[mk-app] #13338 = #13337 #4133
[mk-app] #13339 not #13338
[mk-app] #13340 + #13334 #4114
[inst-discovered] theory-solving 0x0 arith# ; #13335
[mk-app] #13341 = #13335 #13340
[instance] 0x0 #13341
[attach-enode] #13341 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #13341 * #363 #4114
[mk-app] #13342 + #284 #13341
[mk-app] #13343 <= #13342 #334
[mk-app] #13344 >= #13340 #334
[inst-discovered] theory-solving 0x0 arith# ; #13344
[mk-app] #13345 = #13344 #13343
[instance] 0x0 #13345
[attach-enode] #13345 0
[end-of-instance]
[mk-app] #13340 or #13333 #13343
[mk-app] #13344 = #13340 #4133
[mk-app] #13345 not #13340
[mk-app] #13346 not #13344
[inst-discovered] theory-solving 0x0 basic# ; #13346
[mk-app] #13345 = #13346 #13346
[instance] 0x0 #13345
[attach-enode] #13345 0
[end-of-instance]
[mk-app] #13345 not #11540
[mk-app] #13347 or #13345 #13346
[instance] 2924835665 ; 1
[attach-enode] #13341 1
[attach-enode] #13342 1
[assign] (not #13344) justification -1: 58
[end-of-instance]
[mk-app] #13348 >= #3984 #334
[mk-app] #13349 not #13348
[mk-app] #13350 + #3984 #13334
[mk-app] #13351 >= #13350 #334
[mk-app] #13352 or #13349 #13351
[mk-app] #13353 = #13352 #3969
[mk-app] #13354 not #13353
[mk-app] #13355 + #13334 #3984
[inst-discovered] theory-solving 0x0 arith# ; #13350
[mk-app] #13356 = #13350 #13355
[instance] 0x0 #13356
[attach-enode] #13356 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #13356 * #363 #3984
[mk-app] #13357 + #284 #13356
[mk-app] #13358 <= #13357 #334
[mk-app] #13359 >= #13355 #334
[inst-discovered] theory-solving 0x0 arith# ; #13359
[mk-app] #13360 = #13359 #13358
[instance] 0x0 #13360
[attach-enode] #13360 0
[end-of-instance]
[mk-app] #13355 or #13349 #13358
[mk-app] #13359 = #13355 #3969
[mk-app] #13360 not #13355
[mk-app] #13361 not #13359
[inst-discovered] theory-solving 0x0 basic# ; #13361
[mk-app] #13360 = #13361 #13361
[instance] 0x0 #13360
[attach-enode] #13360 0
[end-of-instance]
[mk-app] #13360 or #13345 #13361
[instance] 3186994755 ; 1
[attach-enode] #13356 1
[attach-enode] #13357 1
[assign] (not #13359) justification -1: 58
[end-of-instance]
[mk-app] #13362 >= #3971 #334
[mk-app] #13363 not #13362
[mk-app] #13364 + #3971 #13334
[mk-app] #13365 >= #13364 #334
[mk-app] #13366 or #13363 #13365
[mk-app] #13367 = #13366 #3973
[mk-app] #13368 not #13367
[mk-app] #13369 + #13334 #3971
[inst-discovered] theory-solving 0x0 arith# ; #13364
[mk-app] #13370 = #13364 #13369
[instance] 0x0 #13370
[attach-enode] #13370 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #13370 * #363 #3971
[mk-app] #13371 + #284 #13370
[mk-app] #13372 <= #13371 #334
[mk-app] #13373 >= #13369 #334
[inst-discovered] theory-solving 0x0 arith# ; #13373
[mk-app] #13374 = #13373 #13372
[instance] 0x0 #13374
[attach-enode] #13374 0
[end-of-instance]
[mk-app] #13369 or #13363 #13372
[mk-app] #13373 = #13369 #3973
[mk-app] #13374 not #13369
[mk-app] #13375 not #13373
[inst-discovered] theory-solving 0x0 basic# ; #13375
[mk-app] #13374 = #13375 #13375
[instance] 0x0 #13374
[attach-enode] #13374 0
[end-of-instance]
[mk-app] #13374 or #13345 #13375
[instance] 3394491065 ; 1
[attach-enode] #13370 1
[attach-enode] #13371 1
[assign] (not #13373) justification -1: 58
[end-of-instance]
[mk-app] #13376 >= #4128 #334
[mk-app] #13377 not #13376
[mk-app] #13378 <= #4128 #390
[mk-app] #13379 not #13378
[mk-app] #13380 or #13377 #13379
[mk-app] #13381 not #13380
[mk-app] #13382 >= #4128 #410
[mk-app] #13383 not #13382
[mk-app] #13384 <= #4128 #412
[mk-app] #13385 not #13384
[mk-app] #13386 or #13383 #13385
[mk-app] #13387 not #13386
[mk-app] #13388 or #13381 #13387
[mk-app] #13389 = #4112 #13388
[inst-discovered] theory-solving 0x0 basic# ; #13380
[mk-app] #13390 = #13380 #13380
[instance] 0x0 #13390
[attach-enode] #13390 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13386
[mk-app] #13390 = #13386 #13386
[instance] 0x0 #13390
[attach-enode] #13390 0
[end-of-instance]
[mk-app] #13390 or #4386 #13389
[instance] 597755816 ; 1
[assign] #13389 justification -1: 60
[end-of-instance]
[mk-app] #13391 Poly%u_tokenizer!lex.Step. #13225
[mk-app] #13392 %Poly%u_tokenizer!lex.Step. #13391
[mk-app] #13393 = #13225 #13392
[mk-app] #13394 not #2297
[mk-app] #13395 or #13394 #13393
[instance] 3690985109 ; 1
[attach-enode] #13391 1
[attach-enode] #13392 1
[mk-app] #13396 u_tokenizer!lex.Step./Step/?tok #13392
[mk-app] #13397 u_tokenizer!lex.Step./Step/?ok #13392
[mk-app] #13398 u_tokenizer!lex.Step./Step/?next #13392
[mk-app] #13399 u_tokenizer!lex.Step./Step #13396 #13397 #13398
[attach-enode] #13396 1
[attach-enode] #13397 1
[attach-enode] #13398 1
[attach-enode] #13399 1
[mk-app] #13400 u_tokenizer!lex.Step./Step/?tok #13399
[mk-app] #13401 = #13396 #13400
[new-match] 0 datatype#141 datatype#138 #13396 #13397 #13398 ; #13399
[instance] 0 #13401
[attach-enode] #13400 1
[end-of-instance]
[mk-app] #13401 u_tokenizer!lex.Step./Step/?ok #13399
[mk-app] #13402 = #13397 #13401
[new-match] 0 datatype#144 datatype#138 #13396 #13397 #13398 ; #13399
[instance] 0 #13402
[attach-enode] #13401 1
[end-of-instance]
[mk-app] #13402 u_tokenizer!lex.Step./Step/?next #13399
[mk-app] #13403 = #13398 #13402
[new-match] 0 datatype#147 datatype#138 #13396 #13397 #13398 ; #13399
[instance] 0 #13403
[attach-enode] #13402 1
[end-of-instance]
[attach-enode] #13393 1
[assign] #13393 justification -1: 592
[end-of-instance]
[mk-app] #13403 Poly%u_tokenizer!lex.Step. #1260
[mk-app] #13404 %Poly%u_tokenizer!lex.Step. #13403
[mk-app] #13405 = #1260 #13404
[mk-app] #13406 or #13394 #13405
[instance] 2686284981 ; 1
[attach-enode] #13403 1
[attach-enode] #13404 1
[mk-app] #13407 u_tokenizer!lex.Step./Step/?tok #13404
[mk-app] #13408 u_tokenizer!lex.Step./Step/?ok #13404
[mk-app] #13409 u_tokenizer!lex.Step./Step/?next #13404
[mk-app] #13410 u_tokenizer!lex.Step./Step #13407 #13408 #13409
[attach-enode] #13407 1
[attach-enode] #13408 1
[attach-enode] #13409 1
[attach-enode] #13410 1
[mk-app] #13411 u_tokenizer!lex.Step./Step/?tok #13410
[mk-app] #13412 = #13407 #13411
[new-match] 0 datatype#141 datatype#138 #13407 #13408 #13409 ; #13410
[instance] 0 #13412
[attach-enode] #13411 1
[end-of-instance]
[mk-app] #13412 u_tokenizer!lex.Step./Step/?ok #13410
[mk-app] #13413 = #13408 #13412
[new-match] 0 datatype#144 datatype#138 #13407 #13408 #13409 ; #13410
[instance] 0 #13413
[attach-enode] #13412 1
[end-of-instance]
[mk-app] #13413 u_tokenizer!lex.Step./Step/?next #13410
[mk-app] #13414 = #13409 #13413
[new-match] 0 datatype#147 datatype#138 #13407 #13408 #13409 ; #13410
[instance] 0 #13414
[attach-enode] #13413 1
[end-of-instance]
[attach-enode] #13405 1
[assign] #13405 justification -1: 592
[end-of-instance]
[mk-app] #13414 Poly%u_tokenizer!lex.Step. #13237
[mk-app] #13415 %Poly%u_tokenizer!lex.Step. #13414
[mk-app] #13416 = #13237 #13415
[mk-app] #13417 or #13394 #13416
[instance] 2811730673 ; 1
[attach-enode] #13414 1
[attach-enode] #13415 1
[mk-app] #13418 u_tokenizer!lex.Step./Step/?tok #13415
[mk-app] #13419 u_tokenizer!lex.Step./Step/?ok #13415
[mk-app] #13420 u_tokenizer!lex.Step./Step/?next #13415
[mk-app] #13421 u_tokenizer!lex.Step./Step #13418 #13419 #13420
[attach-enode] #13418 1
[attach-enode] #13419 1
[attach-enode] #13420 1
[attach-enode] #13421 1
[mk-app] #13422 u_tokenizer!lex.Step./Step/?tok #13421
[mk-app] #13423 = #13418 #13422
[new-match] 0 datatype#141 datatype#138 #13418 #13419 #13420 ; #13421
[instance] 0 #13423
[attach-enode] #13422 1
[end-of-instance]
[mk-app] #13423 u_tokenizer!lex.Step./Step/?ok #13421
[mk-app] #13424 = #13419 #13423
[new-match] 0 datatype#144 datatype#138 #13418 #13419 #13420 ; #13421
[instance] 0 #13424
[attach-enode] #13423 1
[end-of-instance]
[mk-app] #13424 u_tokenizer!lex.Step./Step/?next #13421
[mk-app] #13425 = #13420 #13424
[new-match] 0 datatype#147 datatype#138 #13418 #13419 #13420 ; #13421
[instance] 0 #13425
[attach-enode] #13424 1
[end-of-instance]
[attach-enode] #13416 1
[assign] #13416 justification -1: 592
[end-of-instance]
[mk-app] #13425 Poly%u_tokenizer!error.SourceRange. #13243
[mk-app] #13426 %Poly%u_tokenizer!error.SourceRange. #13425
[mk-app] #13427 = #13243 #13426
[mk-app] #13428 not #2420
[mk-app] #13429 or #13428 #13427
[instance] 357426274 ; 1
[attach-enode] #13425 1
[attach-enode] #13426 1
[mk-app] #13430 u_tokenizer!error.SourceRange./SourceRange/?start #13426
[mk-app] #13431 u_tokenizer!error.SourceRange./SourceRange/?end #13426
[mk-app] #13432 u_tokenizer!error.SourceRange./SourceRange #13430 #13431
[attach-enode] #13430 1
[attach-enode] #13431 1
[attach-enode] #13432 1
[mk-app] #13433 u_tokenizer!error.SourceRange./SourceRange/?start #13432
[mk-app] #13434 = #13430 #13433
[new-match] 0 datatype#170 datatype#167 #13430 #13431 ; #13432
[instance] 0 #13434
[attach-enode] #13433 1
[end-of-instance]
[mk-app] #13434 u_tokenizer!error.SourceRange./SourceRange/?end #13432
[mk-app] #13435 = #13431 #13434
[new-match] 0 datatype#173 datatype#167 #13430 #13431 ; #13432
[instance] 0 #13435
[attach-enode] #13434 1
[end-of-instance]
[attach-enode] #13427 1
[assign] #13427 justification -1: 609
[end-of-instance]
[mk-app] #13435 %Poly%u_tokenizer!lex.CIter. #3923
[mk-app] #13436 = #3922 #13435
[mk-app] #13437 not #1622
[mk-app] #13438 or #13437 #13436
[instance] 3511662461 ; 1
[attach-enode] #13435 1
[attach-enode] #13436 1
[assign] #13436 justification -1: 500
[end-of-instance]
[mk-app] #13439 = #3912 #3903
[mk-app] #13440 = #13439 #3904
[mk-app] #13441 not #268
[mk-app] #13442 or #13441 #13440
[instance] 1335281923 ; 1
[attach-enode] #13439 1
[attach-enode] #3904 1
[assign] #13440 justification -1: 37
[end-of-instance]
[mk-app] #13443 %Poly%vstd!seq.Seq<char.>. #3903
[mk-app] #13444 = #3902 #13443
[mk-app] #13445 not #1462
[mk-app] #13446 or #13445 #13444
[instance] 4254909406 ; 1
[attach-enode] #13443 1
[attach-enode] #13444 1
[assign] #13444 justification -1: 476
[end-of-instance]
[mk-app] #13447 %Poly%vstd!seq.Seq<char.>. #3912
[mk-app] #13448 = #3911 #13447
[mk-app] #13449 or #13445 #13448
[instance] 2782599678 ; 1
[attach-enode] #13447 1
[attach-enode] #13448 1
[assign] #13448 justification -1: 476
[end-of-instance]
[mk-app] #13450 has_type #3903 #1463
[mk-app] #13451 not #13450
[mk-app] #13452 >= #3865 #334
[mk-app] #13453 or #13451 #13452
[mk-app] #13454 not #3884
[mk-app] #13455 or #13454 #13451 #13452
[instance] 3302917279 ; 1
[attach-enode] #13450 1
[end-of-instance]
[mk-app] #13456 * #363 #3865
[mk-app] #13457 + #3764 #13456 #3732
[mk-app] #13458 = #13457 #334
[mk-app] #13459 + #3732 #3764 #13456
[inst-discovered] theory-solving 0x0 arith# ; #13457
[mk-app] #13460 = #13457 #13459
[instance] 0x0 #13460
[attach-enode] #13460 0
[end-of-instance]
[mk-app] #13460 = #13459 #334
[mk-app] #13461 not #565
[mk-app] #13462 or #13461 #13460
[instance] 582671231 ; 1
[attach-enode] #13456 1
[attach-enode] #13459 1
[attach-enode] #334 1
[attach-enode] #13460 1
[mk-app] #13463 <= #13459 #334
[mk-app] #13464 >= #13459 #334
[assign] #13460 justification -1: 77
[end-of-instance]
[assign] (not #13340) clause -1933 1934
[assign] (not #13355) clause -1937 1938
[assign] (not #13369) clause -1941 1942
[assign] #13388 clause 1949 -1950
[assign] #13463 clause 1970 -1969
[assign] #13464 clause 1971 -1969
[assign] #13332 clause 1931 1933
[assign] (not #13343) clause -1932 1933
[assign] #13348 clause 1935 1937
[assign] (not #13358) clause -1936 1937
[assign] #13362 clause 1939 1941
[assign] (not #13372) clause -1940 1941
[assign] #3904 justification -1: 1835 715
[mk-app] #13465 <= #284 #285
[mk-app] #13466 >= #284 #285
[assign] #13465 justification -1: 42
[assign] #13466 justification -1: 42
[eq-expl] #4372 root
[new-match] 2620346069 #1401 #1400 #4372 ; #4434
[eq-expl] #4647 root
[new-match] 959897651 #1380 #1379 #4647 ; #4684
[eq-expl] #11273 root
[new-match] 233516272 #1702 #1701 #11273 ; #11264
[eq-expl] #13309 root
[new-match] 345335804 #1360 #1359 #13309 ; #13310
[eq-expl] #13316 root
[new-match] 2175077693 #1682 #1681 #13316 ; #13317
[eq-expl] #13323 root
[new-match] 152344354 #1340 #1339 #13323 ; #13324
[eq-expl] #11162 lit #4455 ; #4434
[eq-expl] #4434 root
[new-match] 1152397955 #1416 #1415 #4372 ; #11173 (#1403 #1403) (#11162 #4434)
[eq-expl] #11174 lit #4656 ; #4684
[eq-expl] #4684 root
[new-match] 3866776045 #1395 #1394 #4647 ; #11175 (#1382 #1382) (#11174 #4684)
[eq-expl] #3897 lit #13311 ; #13310
[eq-expl] #13310 root
[new-match] 4158319767 #1374 #1373 #13309 ; #3948 (#1361 #1361) (#3897 #13310)
[eq-expl] #3947 lit #13318 ; #13317
[eq-expl] #13317 root
[new-match] 1483667631 #1696 #1695 #13316 ; #3935 (#1683 #1683) (#3947 #13317)
[eq-expl] #3936 lit #13325 ; #13324
[eq-expl] #13324 root
[new-match] 1855124519 #1354 #1353 #13323 ; #3900 (#1341 #1341) (#3936 #13324)
[assign] #13439 clause 1962 -1963 -1964
[decide-and-or] #3931 #3930
[push] 1
[assign] (not #3920) decision axiom
[eq-expl] #859 root
[new-match] 2850374349 #28 #27 #859 ; #3920
[mk-app] #13467 = #3920 #3919
[mk-app] #13468 not #28
[mk-app] #13469 or #13468 #13467
[instance] 2850374349 ; 1
[assign] (not #13467) justification -1: 818 -819
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13467
[conflict] #13467
[pop] 1 2
[assign] #13467 axiom
[assign] #3920 clause 819 -1974
[assign] #3928 bin 819
[decide-and-or] #11860 #3946
[push] 1
[assign] (not #3937) decision axiom
[eq-expl] #864 root
[new-match] 1033867528 #28 #27 #864 ; #3937
[mk-app] #13468 = #3937 #1098
[mk-app] #13469 not #28
[mk-app] #13470 or #13469 #13468
[instance] 1033867528 ; 1
[assign] (not #13468) justification -1: 384 -822
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13468
[conflict] #13468
[pop] 1 2
[assign] #13468 axiom
[assign] #3937 clause 822 -1975
[assign] #11864 bin 822
[decide-and-or] #11873 #3999
[push] 1
[assign] (not #3986) decision axiom
[eq-expl] #865 root
[new-match] 1715854556 #28 #27 #865 ; #3986
[mk-app] #13469 = #3986 #1099
[mk-app] #13470 not #28
[mk-app] #13471 or #13470 #13469
[instance] 1715854556 ; 1
[assign] (not #13469) justification -1: 385 -826
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13469
[conflict] #13469
[pop] 1 2
[assign] #13469 axiom
[assign] #3986 clause 826 -1976
[assign] #11877 bin 826
[decide-and-or] #4023 #4022
[push] 1
[assign] (not #4013) decision axiom
[eq-expl] #866 root
[new-match] 1704229351 #28 #27 #866 ; #4013
[mk-app] #13470 = #4013 #1100
[mk-app] #13471 not #28
[mk-app] #13472 or #13471 #13470
[instance] 1704229351 ; 1
[assign] (not #13470) justification -1: 386 -829
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13470
[conflict] #13470
[pop] 1 2
[assign] #13470 axiom
[assign] #4013 clause 829 -1977
[assign] #4021 bin 829
[decide-and-or] #11880 #4047
[push] 1
[assign] (not #4036) decision axiom
[eq-expl] #867 root
[new-match] 835794055 #28 #27 #867 ; #4036
[mk-app] #13471 = #4036 #1101
[mk-app] #13472 not #28
[mk-app] #13473 or #13472 #13471
[instance] 835794055 ; 1
[assign] (not #13471) justification -1: 387 -832
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13471
[conflict] #13471
[pop] 1 2
[assign] #13471 axiom
[assign] #4036 clause 832 -1978
[assign] #11885 bin 832
[decide-and-or] #11887 #4065
[push] 1
[assign] (not #4049) decision axiom
[eq-expl] #868 root
[new-match] 3272867984 #28 #27 #868 ; #4049
[mk-app] #13472 = #4049 #1102
[mk-app] #13473 not #28
[mk-app] #13474 or #13473 #13472
[instance] 3272867984 ; 1
[assign] (not #13472) justification -1: 388 -834
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13472
[conflict] #13472
[pop] 1 2
[assign] #13472 axiom
[assign] #4049 clause 834 -1979
[assign] #11889 bin 834
[decide-and-or] #11888 #4097
[push] 1
[assign] (not #4085) decision axiom
[eq-expl] #869 root
[new-match] 280427611 #28 #27 #869 ; #4085
[mk-app] #13473 = #4085 #1103
[mk-app] #13474 not #28
[mk-app] #13475 or #13474 #13473
[instance] 280427611 ; 1
[assign] (not #13473) justification -1: 389 -837
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13473
[conflict] #13473
[pop] 1 2
[assign] #13473 axiom
[assign] #4085 clause 837 -1980
[assign] #11895 bin 837
[decide-and-or] #11899 #4116
[push] 1
[assign] (not #4099) decision axiom
[eq-expl] #870 root
[new-match] 979091383 #28 #27 #870 ; #4099
[mk-app] #13474 = #4099 #1104
[mk-app] #13475 not #28
[mk-app] #13476 or #13475 #13474
[instance] 979091383 ; 1
[assign] (not #13474) justification -1: 390 -839
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13474
[conflict] #13474
[pop] 1 2
[assign] #13474 axiom
[assign] #4099 clause 839 -1981
[assign] #11902 bin 839
[decide-and-or] #11897 #4127
[push] 1
[assign] (not #4118) decision axiom
[eq-expl] #871 root
[new-match] 4045097051 #28 #27 #871 ; #4118
[mk-app] #13475 = #4118 #1105
[mk-app] #13476 not #28
[mk-app] #13477 or #13476 #13475
[instance] 4045097051 ; 1
[assign] (not #13475) justification -1: 391 -841
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13475
[conflict] #13475
[pop] 1 2
[assign] #13475 axiom
[assign] #4118 clause 841 -1982
[assign] #11904 bin 841
[decide-and-or] #11896 #4165
[push] 1
[assign] (not #4135) decision axiom
[eq-expl] #872 root
[new-match] 2261129681 #28 #27 #872 ; #4135
[mk-app] #13476 = #4135 #1106
[mk-app] #13477 not #28
[mk-app] #13478 or #13477 #13476
[instance] 2261129681 ; 1
[assign] (not #13476) justification -1: 392 -843
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13476
[conflict] #13476
[pop] 1 2
[assign] #13476 axiom
[assign] #4135 clause 843 -1983
[assign] #11921 bin 843
[eq-expl] #3912 lit #13439 ; #3903
[new-match] 1971375671 #11921 #4153 #3903 #3912 #244 #120 ; #11001 (#2 #2) (#3204 #1463)
[mk-app] #13477 i$!skolem_user_vstd__seq__lemma_seq_ext_equal_0!3 #3903 #3903 #244 #120
[mk-app] #13478 vstd!seq.Seq.index.? #120 #244 #3903 #13477
[mk-app] #13479 = #13478 #13478
[mk-app] #13480 %I #13477
[mk-app] #13481 * #363 #13480
[mk-app] #13482 + #3865 #13481
[mk-app] #13483 <= #13482 #334
[mk-app] #13484 >= #13480 #334
[mk-app] #13485 not #13484
[mk-app] #13486 has_type #13477 #184
[mk-app] #13487 not #13486
[mk-app] #13488 or #13487 #13485 #13483 #13479
[mk-app] #13489 not #13488
[mk-app] #13490 = #3865 #3865
[mk-app] #13491 not #13490
[mk-app] #13492 ext_eq #2 #1463 #3903 #3903
[mk-app] #13493 or #13492 #13491 #13489
[mk-app] #13494 not #13493
[mk-app] #13495 vstd!seq.Seq.index.? #120 #244 #3903 #33
[mk-app] #13496 pattern #13495
[mk-app] #13497 + #186 #13456
[mk-app] #13498 >= #13497 #334
[mk-app] #13499 = #13495 #13495
[mk-app] #13500 or #192 #11800 #13498 #13499
[mk-quant] #13501 user_vstd__seq__lemma_seq_ext_equal_0 1 #13496 #13496 #13500
[attach-var-names] #13501 (|i$| ; |Poly|)
[mk-app] #13502 not #13501
[mk-app] #13503 or #13491 #13502
[mk-app] #13504 not #13503
[mk-app] #13505 not #13492
[mk-app] #13506 or #13505 #13504
[mk-app] #13507 not #13506
[mk-app] #13508 or #13507 #13494
[mk-app] #13509 not #13508
[mk-app] #13510 not #121
[mk-app] #13511 or #13451 #13451 #13510 #13509
[inst-discovered] theory-solving 0x0 arith# ; #13490
[mk-app] #13512 = #13490 #1
[instance] 0x0 #13512
[attach-enode] #13512 0
[end-of-instance]
[mk-app] #13512 not #1
[inst-discovered] theory-solving 0x0 basic# ; #13512
[mk-app] #13513 = #13512 #2
[instance] 0x0 #13513
[attach-enode] #13513 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 user-sort# ; #13499
[mk-app] #13512 = #13499 #1
[instance] 0x0 #13512
[attach-enode] #13512 0
[end-of-instance]
[mk-app] #13512 or #192 #11800 #13498 #1
[inst-discovered] theory-solving 0x0 basic# ; #13512
[mk-app] #13513 = #13512 #1
[instance] 0x0 #13513
[attach-enode] #13513 0
[end-of-instance]
[mk-quant] #13512 user_vstd__seq__lemma_seq_ext_equal_0 1 #13496 #1
[attach-var-names] #13512 (|i$| ; |Poly|)
[mk-app] #13512 not #1
[inst-discovered] theory-solving 0x0 basic# ; #13512
[mk-app] #13513 = #13512 #2
[instance] 0x0 #13513
[attach-enode] #13513 0
[end-of-instance]
[mk-app] #13512 or #2 #2
[inst-discovered] theory-solving 0x0 basic# ; #13512
[mk-app] #13513 = #13512 #2
[instance] 0x0 #13513
[attach-enode] #13513 0
[end-of-instance]
[mk-app] #13512 not #2
[inst-discovered] theory-solving 0x0 basic# ; #13512
[mk-app] #13513 = #13512 #1
[instance] 0x0 #13513
[attach-enode] #13513 0
[end-of-instance]
[mk-app] #13512 or #13505 #1
[inst-discovered] theory-solving 0x0 basic# ; #13512
[mk-app] #13513 = #13512 #1
[instance] 0x0 #13513
[attach-enode] #13513 0
[end-of-instance]
[mk-app] #13512 not #1
[inst-discovered] theory-solving 0x0 basic# ; #13512
[mk-app] #13513 = #13512 #2
[instance] 0x0 #13513
[attach-enode] #13513 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 user-sort# ; #13479
[mk-app] #13512 = #13479 #1
[instance] 0x0 #13512
[attach-enode] #13512 0
[end-of-instance]
[mk-app] #13512 or #13487 #13485 #13483 #1
[inst-discovered] theory-solving 0x0 basic# ; #13512
[mk-app] #13513 = #13512 #1
[instance] 0x0 #13513
[attach-enode] #13513 0
[end-of-instance]
[mk-app] #13512 not #1
[inst-discovered] theory-solving 0x0 basic# ; #13512
[mk-app] #13513 = #13512 #2
[instance] 0x0 #13513
[attach-enode] #13513 0
[end-of-instance]
[mk-app] #13512 or #13492 #2 #2
[inst-discovered] theory-solving 0x0 basic# ; #13512
[mk-app] #13513 = #13512 #13492
[instance] 0x0 #13513
[attach-enode] #13513 0
[end-of-instance]
[mk-app] #13512 or #2 #13505
[inst-discovered] theory-solving 0x0 basic# ; #13512
[mk-app] #13513 = #13512 #13505
[instance] 0x0 #13513
[attach-enode] #13513 0
[end-of-instance]
[mk-app] #13512 not #13505
[inst-discovered] theory-solving 0x0 basic# ; #13512
[mk-app] #13513 = #13512 #13492
[instance] 0x0 #13513
[attach-enode] #13513 0
[end-of-instance]
[mk-app] #13512 or #13451 #13510 #13492
[mk-app] #13513 or #13451 #13451 #13510 #13492
[inst-discovered] theory-solving 0x0 basic# ; #13513
[mk-app] #13514 = #13513 #13512
[instance] 0x0 #13514
[attach-enode] #13514 0
[end-of-instance]
[mk-app] #13513 not #11921
[mk-app] #13514 or #13513 #13451 #13510 #13492
[instance] 1971375671 ; 1
[attach-enode] #13492 1
[end-of-instance]
[assign] #13492 justification -1: 1835 1962 715
[decide-and-or] #11905 #4186
[push] 1
[assign] (not #4167) decision axiom
[eq-expl] #873 root
[new-match] 1818313068 #28 #27 #873 ; #4167
[mk-app] #13512 = #4167 #1107
[mk-app] #13515 not #28
[mk-app] #13516 or #13515 #13512
[instance] 1818313068 ; 1
[assign] (not #13512) justification -1: 393 -845
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13512
[conflict] #13512
[pop] 1 2
[assign] #13512 axiom
[assign] #4167 clause 845 -1985
[assign] #11938 bin 845
[decide-and-or] #11922 #4200
[push] 1
[assign] (not #4188) decision axiom
[eq-expl] #874 root
[new-match] 2278126060 #28 #27 #874 ; #4188
[mk-app] #13515 = #4188 #1108
[mk-app] #13516 not #28
[mk-app] #13517 or #13516 #13515
[instance] 2278126060 ; 1
[assign] (not #13515) justification -1: 394 -847
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13515
[conflict] #13515
[pop] 1 2
[assign] #13515 axiom
[assign] #4188 clause 847 -1986
[assign] #11940 bin 847
[decide-and-or] #11943 #4235
[push] 1
[assign] (not #4202) decision axiom
[eq-expl] #875 root
[new-match] 1558629723 #28 #27 #875 ; #4202
[mk-app] #13516 = #4202 #1109
[mk-app] #13517 not #28
[mk-app] #13518 or #13517 #13516
[instance] 1558629723 ; 1
[assign] (not #13516) justification -1: 395 -849
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13516
[conflict] #13516
[pop] 1 2
[assign] #13516 axiom
[assign] #4202 clause 849 -1987
[assign] #11948 bin 849
[decide-and-or] #11951 #4301
[push] 1
[assign] (not #4246) decision axiom
[eq-expl] #876 root
[new-match] 622976498 #28 #27 #876 ; #4246
[mk-app] #13517 = #4246 #1110
[mk-app] #13518 not #28
[mk-app] #13519 or #13518 #13517
[instance] 622976498 ; 1
[assign] (not #13517) justification -1: 396 -851
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13517
[conflict] #13517
[pop] 1 2
[assign] #13517 axiom
[assign] #4246 clause 851 -1988
[assign] #11959 bin 851
[decide-and-or] #11952 #4329
[push] 1
[assign] (not #4317) decision axiom
[eq-expl] #877 root
[new-match] 3738480683 #28 #27 #877 ; #4317
[mk-app] #13518 = #4317 #1111
[mk-app] #13519 not #28
[mk-app] #13520 or #13519 #13518
[instance] 3738480683 ; 1
[assign] (not #13518) justification -1: 397 -854
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13518
[conflict] #13518
[pop] 1 2
[assign] #13518 axiom
[assign] #4317 clause 854 -1989
[assign] #11965 bin 854
[decide-and-or] #11966 #4342
[push] 1
[assign] (not #4331) decision axiom
[eq-expl] #878 root
[new-match] 3812077591 #28 #27 #878 ; #4331
[mk-app] #13519 = #4331 #1112
[mk-app] #13520 not #28
[mk-app] #13521 or #13520 #13519
[instance] 3812077591 ; 1
[assign] (not #13519) justification -1: 398 -856
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13519
[conflict] #13519
[pop] 1 2
[assign] #13519 axiom
[assign] #4331 clause 856 -1990
[assign] #11970 bin 856
[decide-and-or] #11967 #4363
[push] 1
[assign] (not #4347) decision axiom
[eq-expl] #879 root
[new-match] 927413208 #28 #27 #879 ; #4347
[mk-app] #13520 = #4347 #1113
[mk-app] #13521 not #28
[mk-app] #13522 or #13521 #13520
[instance] 927413208 ; 1
[assign] (not #13520) justification -1: 399 -858
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13520
[conflict] #13520
[pop] 1 2
[assign] #13520 axiom
[assign] #4347 clause 858 -1991
[assign] #11971 bin 858
[decide-and-or] #4381 #4380
[push] 1
[assign] (not #4374) decision axiom
[eq-expl] #862 root
[new-match] 746243174 #28 #27 #862 ; #4374
[mk-app] #13521 = #4374 #4373
[mk-app] #13522 not #28
[mk-app] #13523 or #13522 #13521
[instance] 746243174 ; 1
[assign] (not #13521) justification -1: 860 -861
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13521
[conflict] #13521
[pop] 1 2
[assign] #13521 axiom
[assign] #4374 clause 861 -1992
[assign] #4378 bin 861
[decide-and-or] #11977 #4398
[push] 1
[assign] (not #4387) decision axiom
[eq-expl] #882 root
[new-match] 345153187 #28 #27 #882 ; #4387
[mk-app] #13522 = #4387 #1120
[mk-app] #13523 not #28
[mk-app] #13524 or #13523 #13522
[instance] 345153187 ; 1
[assign] (not #13522) justification -1: 402 -864
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13522
[conflict] #13522
[pop] 1 2
[assign] #13522 axiom
[assign] #4387 clause 864 -1993
[assign] #11980 bin 864
[decide-and-or] #11978 #4411
[push] 1
[assign] (not #4400) decision axiom
[eq-expl] #883 root
[new-match] 1521829809 #28 #27 #883 ; #4400
[mk-app] #13523 = #4400 #1121
[mk-app] #13524 not #28
[mk-app] #13525 or #13524 #13523
[instance] 1521829809 ; 1
[assign] (not #13523) justification -1: 403 -866
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13523
[conflict] #13523
[pop] 1 2
[assign] #13523 axiom
[assign] #4400 clause 866 -1994
[assign] #11984 bin 866
[decide-and-or] #11968 #4428
[push] 1
[assign] (not #4413) decision axiom
[eq-expl] #884 root
[new-match] 3227868318 #28 #27 #884 ; #4413
[mk-app] #13524 = #4413 #1122
[mk-app] #13525 not #28
[mk-app] #13526 or #13525 #13524
[instance] 3227868318 ; 1
[assign] (not #13524) justification -1: 404 -868
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13524
[conflict] #13524
[pop] 1 2
[assign] #13524 axiom
[assign] #4413 clause 868 -1995
[assign] #11985 bin 868
[decide-and-or] #11989 #4457
[push] 1
[assign] (not #4436) decision axiom
[eq-expl] #854 root
[new-match] 2388859386 #28 #27 #854 ; #4436
[mk-app] #13525 = #4436 #1049
[mk-app] #13526 not #28
[mk-app] #13527 or #13526 #13525
[instance] 2388859386 ; 1
[assign] (not #13525) justification -1: 350 -871
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13525
[conflict] #13525
[pop] 1 2
[assign] #13525 axiom
[assign] #4436 clause 871 -1996
[assign] #11993 bin 871
[decide-and-or] #11997 #4486
[push] 1
[assign] (not #4459) decision axiom
[eq-expl] #855 root
[new-match] 3941438411 #28 #27 #855 ; #4459
[mk-app] #13526 = #4459 #1050
[mk-app] #13527 not #28
[mk-app] #13528 or #13527 #13526
[instance] 3941438411 ; 1
[assign] (not #13526) justification -1: 351 -873
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13526
[conflict] #13526
[pop] 1 2
[assign] #13526 axiom
[assign] #4459 clause 873 -1997
[assign] #12002 bin 873
[decide-and-or] #4525 #4524
[push] 1
[assign] (not #4512) decision axiom
[eq-expl] #889 root
[new-match] 3112607393 #28 #27 #889 ; #4512
[mk-app] #13527 = #4512 #1128
[mk-app] #13528 not #28
[mk-app] #13529 or #13528 #13527
[instance] 3112607393 ; 1
[assign] (not #13527) justification -1: 406 -878
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13527
[conflict] #13527
[pop] 1 2
[assign] #13527 axiom
[assign] #4512 clause 878 -1998
[assign] #4522 bin 878
[decide-and-or] #4534 #4533
[push] 1
[assign] (not #4527) decision axiom
[eq-expl] #890 root
[new-match] 2747499180 #28 #27 #890 ; #4527
[mk-app] #13528 = #4527 #4526
[mk-app] #13529 not #28
[mk-app] #13530 or #13529 #13528
[instance] 2747499180 ; 1
[assign] (not #13528) justification -1: 880 -881
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13528
[conflict] #13528
[pop] 1 2
[assign] #13528 axiom
[assign] #4527 clause 881 -1999
[assign] #4531 bin 881
[decide-and-or] #4581 #4580
[push] 1
[assign] (not #4569) decision axiom
[eq-expl] #888 root
[new-match] 3277692931 #28 #27 #888 ; #4569
[mk-app] #13529 = #4569 #4568
[mk-app] #13530 not #28
[mk-app] #13531 or #13530 #13529
[instance] 3277692931 ; 1
[assign] (not #13529) justification -1: 886 -887
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13529
[conflict] #13529
[pop] 1 2
[assign] #13529 axiom
[assign] #4569 clause 887 -2000
[assign] #4579 bin 887
[decide-and-or] #12016 #4630
[push] 1
[assign] (not #4588) decision axiom
[eq-expl] #891 root
[new-match] 4156945799 #28 #27 #891 ; #4588
[mk-app] #13530 = #4588 #1129
[mk-app] #13531 not #28
[mk-app] #13532 or #13531 #13530
[instance] 4156945799 ; 1
[assign] (not #13530) justification -1: 407 -890
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13530
[conflict] #13530
[pop] 1 2
[assign] #13530 axiom
[assign] #4588 clause 890 -2001
[assign] #12033 bin 890
[decide-and-or] #12017 #4646
[push] 1
[assign] (not #4632) decision axiom
[eq-expl] #892 root
[new-match] 1234756980 #28 #27 #892 ; #4632
[mk-app] #13531 = #4632 #1130
[mk-app] #13532 not #28
[mk-app] #13533 or #13532 #13531
[instance] 1234756980 ; 1
[assign] (not #13531) justification -1: 408 -892
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13531
[conflict] #13531
[pop] 1 2
[assign] #13531 axiom
[assign] #4632 clause 892 -2002
[assign] #12035 bin 892
[decide-and-or] #4670 #4669
[push] 1
[assign] (not #4658) decision axiom
[eq-expl] #893 root
[new-match] 740253115 #28 #27 #893 ; #4658
[mk-app] #13532 = #4658 #1131
[mk-app] #13533 not #28
[mk-app] #13534 or #13533 #13532
[instance] 740253115 ; 1
[assign] (not #13532) justification -1: 409 -894
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13532
[conflict] #13532
[pop] 1 2
[assign] #13532 axiom
[assign] #4658 clause 894 -2003
[assign] #4667 bin 894
[decide-and-or] #12034 #4683
[push] 1
[assign] (not #4671) decision axiom
[eq-expl] #894 root
[new-match] 929348692 #28 #27 #894 ; #4671
[mk-app] #13533 = #4671 #1132
[mk-app] #13534 not #28
[mk-app] #13535 or #13534 #13533
[instance] 929348692 ; 1
[assign] (not #13533) justification -1: 410 -896
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13533
[conflict] #13533
[pop] 1 2
[assign] #13533 axiom
[assign] #4671 clause 896 -2004
[assign] #12038 bin 896
[decide-and-or] #4713 #4712
[push] 1
[assign] (not #4700) decision axiom
[eq-expl] #845 root
[new-match] 3710588377 #28 #27 #845 ; #4700
[mk-app] #13534 = #4700 #4693
[mk-app] #13535 not #28
[mk-app] #13536 or #13535 #13534
[instance] 3710588377 ; 1
[assign] (not #13534) justification -1: 898 -900
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13534
[conflict] #13534
[pop] 1 2
[assign] #13534 axiom
[assign] #4700 clause 900 -2005
[assign] #4710 bin 900
[decide-and-or] #12040 #4732
[push] 1
[assign] (not #4720) decision axiom
[eq-expl] #846 root
[new-match] 4284762065 #28 #27 #846 ; #4720
[mk-app] #13535 = #4720 #4719
[mk-app] #13536 not #28
[mk-app] #13537 or #13536 #13535
[instance] 4284762065 ; 1
[assign] (not #13535) justification -1: 903 -904
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13535
[conflict] #13535
[pop] 1 2
[assign] #13535 axiom
[assign] #4720 clause 904 -2006
[assign] #12042 bin 904
[decide-and-or] #12043 #4750
[push] 1
[assign] (not #4740) decision axiom
[eq-expl] #849 root
[new-match] 2313035860 #28 #27 #849 ; #4740
[mk-app] #13536 = #4740 #1038
[mk-app] #13537 not #28
[mk-app] #13538 or #13537 #13536
[instance] 2313035860 ; 1
[assign] (not #13536) justification -1: 343 -907
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13536
[conflict] #13536
[pop] 1 2
[assign] #13536 axiom
[assign] #4740 clause 907 -2007
[assign] #12047 bin 907
[decide-and-or] #12052 #4786
[push] 1
[assign] (not #4770) decision axiom
[eq-expl] #847 root
[new-match] 824198818 #28 #27 #847 ; #4770
[mk-app] #13537 = #4770 #4769
[mk-app] #13538 not #28
[mk-app] #13539 or #13538 #13537
[instance] 824198818 ; 1
[assign] (not #13537) justification -1: 911 -912
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13537
[conflict] #13537
[pop] 1 2
[assign] #13537 axiom
[assign] #4770 clause 912 -2008
[assign] #12056 bin 912
[decide-and-or] #12060 #4810
[push] 1
[assign] (not #4794) decision axiom
[eq-expl] #848 root
[new-match] 3923805301 #28 #27 #848 ; #4794
[mk-app] #13538 = #4794 #1039
[mk-app] #13539 not #28
[mk-app] #13540 or #13539 #13538
[instance] 3923805301 ; 1
[assign] (not #13538) justification -1: 344 -915
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13538
[conflict] #13538
[pop] 1 2
[assign] #13538 axiom
[assign] #4794 clause 915 -2009
[assign] #12062 bin 915
[decide-and-or] #12066 #4857
[push] 1
[assign] (not #4821) decision axiom
[eq-expl] #850 root
[new-match] 3176097252 #28 #27 #850 ; #4821
[mk-app] #13539 = #4821 #1040
[mk-app] #13540 not #28
[mk-app] #13541 or #13540 #13539
[instance] 3176097252 ; 1
[assign] (not #13539) justification -1: 345 -917
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13539
[conflict] #13539
[pop] 1 2
[assign] #13539 axiom
[assign] #4821 clause 917 -2010
[assign] #12079 bin 917
[decide-and-or] #12080 #4869
[push] 1
[assign] (not #4859) decision axiom
[eq-expl] #851 root
[new-match] 3766586327 #28 #27 #851 ; #4859
[mk-app] #13540 = #4859 #1041
[mk-app] #13541 not #28
[mk-app] #13542 or #13541 #13540
[instance] 3766586327 ; 1
[assign] (not #13540) justification -1: 346 -919
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13540
[conflict] #13540
[pop] 1 2
[assign] #13540 axiom
[assign] #4859 clause 919 -2011
[assign] #12081 bin 919
[decide-and-or] #12064 #4886
[push] 1
[assign] (not #4876) decision axiom
[eq-expl] #852 root
[new-match] 2733243512 #28 #27 #852 ; #4876
[mk-app] #13541 = #4876 #1042
[mk-app] #13542 not #28
[mk-app] #13543 or #13542 #13541
[instance] 2733243512 ; 1
[assign] (not #13541) justification -1: 347 -921
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13541
[conflict] #13541
[pop] 1 2
[assign] #13541 axiom
[assign] #4876 clause 921 -2012
[assign] #12083 bin 921
[decide-and-or] #12084 #4900
[push] 1
[assign] (not #4888) decision axiom
[eq-expl] #853 root
[new-match] 1363919314 #28 #27 #853 ; #4888
[mk-app] #13542 = #4888 #1043
[mk-app] #13543 not #28
[mk-app] #13544 or #13543 #13542
[instance] 1363919314 ; 1
[assign] (not #13542) justification -1: 348 -923
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13542
[conflict] #13542
[pop] 1 2
[assign] #13542 axiom
[assign] #4888 clause 923 -2013
[assign] #12086 bin 923
[decide-and-or] #4923 #4922
[push] 1
[assign] (not #4911) decision axiom
[eq-expl] #895 root
[new-match] 4143982060 #28 #27 #895 ; #4911
[mk-app] #13543 = #4911 #1138
[mk-app] #13544 not #28
[mk-app] #13545 or #13544 #13543
[instance] 4143982060 ; 1
[assign] (not #13543) justification -1: 412 -926
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13543
[conflict] #13543
[pop] 1 2
[assign] #13543 axiom
[assign] #4911 clause 926 -2014
[assign] #4921 bin 926
[decide-and-or] #12088 #4940
[push] 1
[assign] (not #4924) decision axiom
[eq-expl] #896 root
[new-match] 2572834919 #28 #27 #896 ; #4924
[mk-app] #13544 = #4924 #1139
[mk-app] #13545 not #28
[mk-app] #13546 or #13545 #13544
[instance] 2572834919 ; 1
[assign] (not #13544) justification -1: 413 -928
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13544
[conflict] #13544
[pop] 1 2
[assign] #13544 axiom
[assign] #4924 clause 928 -2015
[assign] #12091 bin 928
[decide-and-or] #4966 #4965
[push] 1
[assign] (not #4953) decision axiom
[eq-expl] #857 root
[new-match] 3390255071 #28 #27 #857 ; #4953
[mk-app] #13545 = #4953 #1091
[mk-app] #13546 not #28
[mk-app] #13547 or #13546 #13545
[instance] 3390255071 ; 1
[assign] (not #13545) justification -1: 381 -932
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13545
[conflict] #13545
[pop] 1 2
[assign] #13545 axiom
[assign] #4953 clause 932 -2016
[assign] #4964 bin 932
[decide-and-or] #4993 #4992
[push] 1
[assign] (not #4978) decision axiom
[eq-expl] #858 root
[new-match] 193940388 #28 #27 #858 ; #4978
[mk-app] #13546 = #4978 #1092
[mk-app] #13547 not #28
[mk-app] #13548 or #13547 #13546
[instance] 193940388 ; 1
[assign] (not #13546) justification -1: 382 -935
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13546
[conflict] #13546
[pop] 1 2
[assign] #13546 axiom
[assign] #4978 clause 935 -2017
[assign] #4990 bin 935
[decide-and-or] #5040 #5039
[push] 1
[assign] (not #5031) decision axiom
[eq-expl] #812 root
[new-match] 20154665 #28 #27 #812 ; #5031
[mk-app] #13547 = #5031 #5030
[mk-app] #13548 not #28
[mk-app] #13549 or #13548 #13547
[instance] 20154665 ; 1
[assign] (not #13547) justification -1: 944 -945
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13547
[conflict] #13547
[pop] 1 2
[assign] #13547 axiom
[assign] #5031 clause 945 -2018
[assign] #5045 bin 945
[decide-and-or] #5055 #5054
[push] 1
[assign] (not #5047) decision axiom
[eq-expl] #813 root
[new-match] 1491375671 #28 #27 #813 ; #5047
[mk-app] #13548 = #5047 #5046
[mk-app] #13549 not #28
[mk-app] #13550 or #13549 #13548
[instance] 1491375671 ; 1
[assign] (not #13548) justification -1: 947 -948
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13548
[conflict] #13548
[pop] 1 2
[assign] #13548 axiom
[assign] #5047 clause 948 -2019
[assign] #5052 bin 948
[decide-and-or] #5076 #5075
[push] 1
[assign] (not #5061) decision axiom
[eq-expl] #815 root
[new-match] 838386922 #28 #27 #815 ; #5061
[mk-app] #13549 = #5061 #5060
[mk-app] #13550 not #28
[mk-app] #13551 or #13550 #13549
[instance] 838386922 ; 1
[assign] (not #13549) justification -1: 951 -952
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13549
[conflict] #13549
[pop] 1 2
[assign] #13549 axiom
[assign] #5061 clause 952 -2020
[assign] #5073 bin 952
[decide-and-or] #5085 #5084
[push] 1
[assign] (not #5078) decision axiom
[eq-expl] #814 root
[new-match] 1777099069 #28 #27 #814 ; #5078
[mk-app] #13550 = #5078 #5077
[mk-app] #13551 not #28
[mk-app] #13552 or #13551 #13550
[instance] 1777099069 ; 1
[assign] (not #13550) justification -1: 954 -955
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13550
[conflict] #13550
[pop] 1 2
[assign] #13550 axiom
[assign] #5078 clause 955 -2021
[assign] #5082 bin 955
[decide-and-or] #12110 #5137
[push] 1
[assign] (not #5097) decision axiom
[eq-expl] #816 root
[new-match] 1790765145 #28 #27 #816 ; #5097
[mk-app] #13551 = #5097 #1145
[mk-app] #13552 not #28
[mk-app] #13553 or #13552 #13551
[instance] 1790765145 ; 1
[assign] (not #13551) justification -1: 415 -960
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13551
[conflict] #13551
[pop] 1 2
[assign] #13551 axiom
[assign] #5097 clause 960 -2022
[assign] #12109 bin 960
[decide-and-or] #5150 #5149
[push] 1
[assign] (not #5143) decision axiom
[eq-expl] #817 root
[new-match] 2233313680 #28 #27 #817 ; #5143
[mk-app] #13552 = #5143 #5142
[mk-app] #13553 not #28
[mk-app] #13554 or #13553 #13552
[instance] 2233313680 ; 1
[assign] (not #13552) justification -1: 965 -966
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13552
[conflict] #13552
[pop] 1 2
[assign] #13552 axiom
[assign] #5143 clause 966 -2023
[assign] #5152 bin 966
[decide-and-or] #5161 #5160
[push] 1
[assign] (not #5154) decision axiom
[eq-expl] #818 root
[new-match] 1670917331 #28 #27 #818 ; #5154
[mk-app] #13553 = #5154 #5153
[mk-app] #13554 not #28
[mk-app] #13555 or #13554 #13553
[instance] 1670917331 ; 1
[assign] (not #13553) justification -1: 968 -969
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13553
[conflict] #13553
[pop] 1 2
[assign] #13553 axiom
[assign] #5154 clause 969 -2024
[assign] #5158 bin 969
[decide-and-or] #5177 #5176
[push] 1
[assign] (not #5163) decision axiom
[eq-expl] #820 root
[new-match] 356411399 #28 #27 #820 ; #5163
[mk-app] #13554 = #5163 #5162
[mk-app] #13555 not #28
[mk-app] #13556 or #13555 #13554
[instance] 356411399 ; 1
[assign] (not #13554) justification -1: 971 -972
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13554
[conflict] #13554
[pop] 1 2
[assign] #13554 axiom
[assign] #5163 clause 972 -2025
[assign] #5174 bin 972
[decide-and-or] #5186 #5185
[push] 1
[assign] (not #5179) decision axiom
[eq-expl] #819 root
[new-match] 64376110 #28 #27 #819 ; #5179
[mk-app] #13555 = #5179 #5178
[mk-app] #13556 not #28
[mk-app] #13557 or #13556 #13555
[instance] 64376110 ; 1
[assign] (not #13555) justification -1: 974 -975
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13555
[conflict] #13555
[pop] 1 2
[assign] #13555 axiom
[assign] #5179 clause 975 -2026
[assign] #5183 bin 975
[decide-and-or] #12117 #5225
[push] 1
[assign] (not #5189) decision axiom
[eq-expl] #821 root
[new-match] 344506152 #28 #27 #821 ; #5189
[mk-app] #13556 = #5189 #1146
[mk-app] #13557 not #28
[mk-app] #13558 or #13557 #13556
[instance] 344506152 ; 1
[assign] (not #13556) justification -1: 416 -979
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13556
[conflict] #13556
[pop] 1 2
[assign] #13556 axiom
[assign] #5189 clause 979 -2027
[assign] #12116 bin 979
[decide-and-or] #5238 #5237
[push] 1
[assign] (not #5231) decision axiom
[eq-expl] #822 root
[new-match] 535634748 #28 #27 #822 ; #5231
[mk-app] #13557 = #5231 #5230
[mk-app] #13558 not #28
[mk-app] #13559 or #13558 #13557
[instance] 535634748 ; 1
[assign] (not #13557) justification -1: 984 -985
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13557
[conflict] #13557
[pop] 1 2
[assign] #13557 axiom
[assign] #5231 clause 985 -2028
[assign] #5240 bin 985
[decide-and-or] #5249 #5248
[push] 1
[assign] (not #5242) decision axiom
[eq-expl] #823 root
[new-match] 2823756208 #28 #27 #823 ; #5242
[mk-app] #13558 = #5242 #5241
[mk-app] #13559 not #28
[mk-app] #13560 or #13559 #13558
[instance] 2823756208 ; 1
[assign] (not #13558) justification -1: 987 -988
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13558
[conflict] #13558
[pop] 1 2
[assign] #13558 axiom
[assign] #5242 clause 988 -2029
[assign] #5246 bin 988
[decide-and-or] #11022 #5267
[push] 1
[assign] (not #5251) decision axiom
[eq-expl] #825 root
[new-match] 1372226206 #28 #27 #825 ; #5251
[mk-app] #13559 = #5251 #5250
[mk-app] #13560 not #28
[mk-app] #13561 or #13560 #13559
[instance] 1372226206 ; 1
[assign] (not #13559) justification -1: 990 -991
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13559
[conflict] #13559
[pop] 1 2
[assign] #13559 axiom
[assign] #5251 clause 991 -2030
[assign] #11021 bin 991
[decide-and-or] #5282 #5281
[push] 1
[assign] (not #5275) decision axiom
[eq-expl] #824 root
[new-match] 2715239587 #28 #27 #824 ; #5275
[mk-app] #13560 = #5275 #5266
[mk-app] #13561 not #28
[mk-app] #13562 or #13561 #13560
[instance] 2715239587 ; 1
[assign] (not #13560) justification -1: 993 -994
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13560
[conflict] #13560
[pop] 1 2
[assign] #13560 axiom
[assign] #5275 clause 994 -2031
[assign] #5279 bin 994
[decide-and-or] #12124 #5321
[push] 1
[assign] (not #5285) decision axiom
[eq-expl] #826 root
[new-match] 633268062 #28 #27 #826 ; #5285
[mk-app] #13561 = #5285 #1147
[mk-app] #13562 not #28
[mk-app] #13563 or #13562 #13561
[instance] 633268062 ; 1
[assign] (not #13561) justification -1: 417 -998
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13561
[conflict] #13561
[pop] 1 2
[assign] #13561 axiom
[assign] #5285 clause 998 -2032
[assign] #12123 bin 998
[decide-and-or] #5334 #5333
[push] 1
[assign] (not #5327) decision axiom
[eq-expl] #827 root
[new-match] 2507905701 #28 #27 #827 ; #5327
[mk-app] #13562 = #5327 #5326
[mk-app] #13563 not #28
[mk-app] #13564 or #13563 #13562
[instance] 2507905701 ; 1
[assign] (not #13562) justification -1: 1003 -1004
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13562
[conflict] #13562
[pop] 1 2
[assign] #13562 axiom
[assign] #5327 clause 1004 -2033
[assign] #5336 bin 1004
[decide-and-or] #5345 #5344
[push] 1
[assign] (not #5338) decision axiom
[eq-expl] #828 root
[new-match] 802006847 #28 #27 #828 ; #5338
[mk-app] #13563 = #5338 #5337
[mk-app] #13564 not #28
[mk-app] #13565 or #13564 #13563
[instance] 802006847 ; 1
[assign] (not #13563) justification -1: 1006 -1007
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13563
[conflict] #13563
[pop] 1 2
[assign] #13563 axiom
[assign] #5338 clause 1007 -2034
[assign] #5342 bin 1007
[decide-and-or] #5268 #5363
[push] 1
[assign] (not #5347) decision axiom
[eq-expl] #830 root
[new-match] 1295603352 #28 #27 #830 ; #5347
[mk-app] #13564 = #5347 #5346
[mk-app] #13565 not #28
[mk-app] #13566 or #13565 #13564
[instance] 1295603352 ; 1
[assign] (not #13564) justification -1: 1009 -1010
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13564
[conflict] #13564
[pop] 1 2
[assign] #13564 axiom
[assign] #5347 clause 1010 -2035
[assign] #11024 bin 1010
[decide-and-or] #5378 #5377
[push] 1
[assign] (not #5371) decision axiom
[eq-expl] #829 root
[new-match] 3145595303 #28 #27 #829 ; #5371
[mk-app] #13565 = #5371 #5362
[mk-app] #13566 not #28
[mk-app] #13567 or #13566 #13565
[instance] 3145595303 ; 1
[assign] (not #13565) justification -1: 1012 -1013
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13565
[conflict] #13565
[pop] 1 2
[assign] #13565 axiom
[assign] #5371 clause 1013 -2036
[assign] #5375 bin 1013
[decide-and-or] #12131 #5417
[push] 1
[assign] (not #5381) decision axiom
[eq-expl] #831 root
[new-match] 1318668494 #28 #27 #831 ; #5381
[mk-app] #13566 = #5381 #1148
[mk-app] #13567 not #28
[mk-app] #13568 or #13567 #13566
[instance] 1318668494 ; 1
[assign] (not #13566) justification -1: 418 -1017
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13566
[conflict] #13566
[pop] 1 2
[assign] #13566 axiom
[assign] #5381 clause 1017 -2037
[assign] #12130 bin 1017
[decide-and-or] #12133 #5450
[push] 1
[assign] (not #5435) decision axiom
[eq-expl] #840 root
[new-match] 2271693452 #28 #27 #840 ; #5435
[mk-app] #13567 = #5435 #1154
[mk-app] #13568 not #28
[mk-app] #13569 or #13568 #13567
[instance] 2271693452 ; 1
[assign] (not #13567) justification -1: 420 -1021
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13567
[conflict] #13567
[pop] 1 2
[assign] #13567 axiom
[assign] #5435 clause 1021 -2038
[assign] #12138 bin 1021
[decide-and-or] #12139 #5471
[push] 1
[assign] (not #5453) decision axiom
[eq-expl] #843 root
[new-match] 3221692570 #28 #27 #843 ; #5453
[mk-app] #13568 = #5453 #1155
[mk-app] #13569 not #28
[mk-app] #13570 or #13569 #13568
[instance] 3221692570 ; 1
[assign] (not #13568) justification -1: 421 -1024
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13568
[conflict] #13568
[pop] 1 2
[assign] #13568 axiom
[assign] #5453 clause 1024 -2039
[assign] #12141 bin 1024
[decide-and-or] #5498 #5497
[push] 1
[assign] (not #5483) decision axiom
[eq-expl] #844 root
[new-match] 2638331875 #28 #27 #844 ; #5483
[mk-app] #13569 = #5483 #1156
[mk-app] #13570 not #28
[mk-app] #13571 or #13570 #13569
[instance] 2638331875 ; 1
[assign] (not #13569) justification -1: 422 -1026
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13569
[conflict] #13569
[pop] 1 2
[assign] #13569 axiom
[assign] #5483 clause 1026 -2040
[assign] #5494 bin 1026
[decide-and-or] #5588 #5587
[push] 1
[assign] (not #5579) decision axiom
[eq-expl] #886 root
[new-match] 3400701526 #28 #27 #886 ; #5579
[mk-app] #13570 = #5579 #5578
[mk-app] #13571 not #28
[mk-app] #13572 or #13571 #13570
[instance] 3400701526 ; 1
[assign] (not #13570) justification -1: 1042 -1043
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13570
[conflict] #13570
[pop] 1 2
[assign] #13570 axiom
[assign] #5579 clause 1043 -2041
[assign] #5585 bin 1043
[decide-and-or] #5612 #5611
[push] 1
[assign] (not #5602) decision axiom
[eq-expl] #803 root
[new-match] 580732690 #28 #27 #803 ; #5602
[mk-app] #13571 = #5602 #5601
[mk-app] #13572 not #28
[mk-app] #13573 or #13572 #13571
[instance] 580732690 ; 1
[assign] (not #13571) justification -1: 1047 -1048
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13571
[conflict] #13571
[pop] 1 2
[assign] #13571 axiom
[assign] #5602 clause 1048 -2042
[assign] #5610 bin 1048
[decide-and-or] #5817 #5816
[push] 1
[assign] (not #5809) decision axiom
[eq-expl] #800 root
[new-match] 192792533 #28 #27 #800 ; #5809
[mk-app] #13572 = #5809 #5808
[mk-app] #13573 not #28
[mk-app] #13574 or #13573 #13572
[instance] 192792533 ; 1
[assign] (not #13572) justification -1: 1057 -1058
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13572
[conflict] #13572
[pop] 1 2
[assign] #13572 axiom
[assign] #5809 clause 1058 -2043
[assign] #5814 bin 1058
[decide-and-or] #5831 #5830
[push] 1
[assign] (not #5823) decision axiom
[eq-expl] #799 root
[new-match] 391372089 #28 #27 #799 ; #5823
[mk-app] #13573 = #5823 #5822
[mk-app] #13574 not #28
[mk-app] #13575 or #13574 #13573
[instance] 391372089 ; 1
[assign] (not #13573) justification -1: 1061 -1062
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13573
[conflict] #13573
[pop] 1 2
[assign] #13573 axiom
[assign] #5823 clause 1062 -2044
[assign] #5828 bin 1062
[decide-and-or] #12232 #5888
[push] 1
[assign] (not #5838) decision axiom
[eq-expl] #801 root
[new-match] 2166959533 #28 #27 #801 ; #5838
[mk-app] #13574 = #5838 #5837
[mk-app] #13575 not #28
[mk-app] #13576 or #13575 #13574
[instance] 2166959533 ; 1
[assign] (not #13574) justification -1: 1065 -1066
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13574
[conflict] #13574
[pop] 1 2
[assign] #13574 axiom
[assign] #5838 clause 1066 -2045
[assign] #12231 bin 1066
[decide-and-or] #6011 #6010
[push] 1
[assign] (not #6002) decision axiom
[eq-expl] #804 root
[new-match] 235137523 #28 #27 #804 ; #6002
[mk-app] #13575 = #6002 #6001
[mk-app] #13576 not #28
[mk-app] #13577 or #13576 #13575
[instance] 235137523 ; 1
[assign] (not #13575) justification -1: 1071 -1072
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13575
[conflict] #13575
[pop] 1 2
[assign] #13575 axiom
[assign] #6002 clause 1072 -2046
[assign] #6009 bin 1072
[decide-and-or] #6022 #6021
[push] 1
[assign] (not #6013) decision axiom
[eq-expl] #805 root
[new-match] 4206707067 #28 #27 #805 ; #6013
[mk-app] #13576 = #6013 #6012
[mk-app] #13577 not #28
[mk-app] #13578 or #13577 #13576
[instance] 4206707067 ; 1
[assign] (not #13576) justification -1: 1074 -1075
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13576
[conflict] #13576
[pop] 1 2
[assign] #13576 axiom
[assign] #6013 clause 1075 -2047
[assign] #6020 bin 1075
[decide-and-or] #6041 #6040
[push] 1
[assign] (not #6034) decision axiom
[eq-expl] #806 root
[new-match] 1932173999 #28 #27 #806 ; #6034
[mk-app] #13577 = #6034 #6033
[mk-app] #13578 not #28
[mk-app] #13579 or #13578 #13577
[instance] 1932173999 ; 1
[assign] (not #13577) justification -1: 1078 -1079
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13577
[conflict] #13577
[pop] 1 2
[assign] #13577 axiom
[assign] #6034 clause 1079 -2048
[assign] #6038 bin 1079
[decide-and-or] #6078 #6077
[push] 1
[assign] (not #6066) decision axiom
[eq-expl] #807 root
[new-match] 1630816013 #28 #27 #807 ; #6066
[mk-app] #13578 = #6066 #6065
[mk-app] #13579 not #28
[mk-app] #13580 or #13579 #13578
[instance] 1630816013 ; 1
[assign] (not #13578) justification -1: 1084 -1085
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13578
[conflict] #13578
[pop] 1 2
[assign] #13578 axiom
[assign] #6066 clause 1085 -2049
[assign] #6076 bin 1085
[decide-and-or] #6132 #6131
[push] 1
[assign] (not #6121) decision axiom
[eq-expl] #833 root
[new-match] 852788480 #28 #27 #833 ; #6121
[mk-app] #13579 = #6121 #6120
[mk-app] #13580 not #28
[mk-app] #13581 or #13580 #13579
[instance] 852788480 ; 1
[assign] (not #13579) justification -1: 1091 -1092
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13579
[conflict] #13579
[pop] 1 2
[assign] #13579 axiom
[assign] #6121 clause 1092 -2050
[assign] #6130 bin 1092
[decide-and-or] #12284 #6144
[push] 1
[assign] (not #6134) decision axiom
[eq-expl] #832 root
[new-match] 2269716923 #28 #27 #832 ; #6134
[mk-app] #13580 = #6134 #6133
[mk-app] #13581 not #28
[mk-app] #13582 or #13581 #13580
[instance] 2269716923 ; 1
[assign] (not #13580) justification -1: 1094 -1095
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13580
[conflict] #13580
[pop] 1 2
[assign] #13580 axiom
[assign] #6134 clause 1095 -2051
[assign] #12289 bin 1095
[decide-and-or] #6196 #6195
[push] 1
[assign] (not #6185) decision axiom
[eq-expl] #835 root
[new-match] 474943469 #28 #27 #835 ; #6185
[mk-app] #13581 = #6185 #6184
[mk-app] #13582 not #28
[mk-app] #13583 or #13582 #13581
[instance] 474943469 ; 1
[assign] (not #13581) justification -1: 1101 -1102
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13581
[conflict] #13581
[pop] 1 2
[assign] #13581 axiom
[assign] #6185 clause 1102 -2052
[assign] #6194 bin 1102
[decide-and-or] #12302 #6213
[push] 1
[assign] (not #6198) decision axiom
[eq-expl] #836 root
[new-match] 1958534914 #28 #27 #836 ; #6198
[mk-app] #13582 = #6198 #6197
[mk-app] #13583 not #28
[mk-app] #13584 or #13583 #13582
[instance] 1958534914 ; 1
[assign] (not #13582) justification -1: 1104 -1105
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13582
[conflict] #13582
[pop] 1 2
[assign] #13582 axiom
[assign] #6198 clause 1105 -2053
[assign] #12301 bin 1105
[decide-and-or] #6255 #6254
[push] 1
[assign] (not #6243) decision axiom
[eq-expl] #881 root
[new-match] 3098296566 #28 #27 #881 ; #6243
[mk-app] #13583 = #6243 #6237
[mk-app] #13584 not #28
[mk-app] #13585 or #13584 #13583
[instance] 3098296566 ; 1
[assign] (not #13583) justification -1: 1109 -1111
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13583
[conflict] #13583
[pop] 1 2
[assign] #13583 axiom
[assign] #6243 clause 1111 -2054
[assign] #6252 bin 1111
[decide-and-or] #6276 #6275
[push] 1
[assign] (not #6263) decision axiom
[eq-expl] #887 root
[new-match] 1753431876 #28 #27 #887 ; #6263
[mk-app] #13584 = #6263 #6262
[mk-app] #13585 not #28
[mk-app] #13586 or #13585 #13584
[instance] 1753431876 ; 1
[assign] (not #13584) justification -1: 1114 -1115
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13584
[conflict] #13584
[pop] 1 2
[assign] #13584 axiom
[assign] #6263 clause 1115 -2055
[assign] #6273 bin 1115
[decide-and-or] #12326 #6364
[push] 1
[assign] (not #6355) decision axiom
[eq-expl] #841 root
[new-match] 442749772 #28 #27 #841 ; #6355
[mk-app] #13585 = #6355 #6354
[mk-app] #13586 not #28
[mk-app] #13587 or #13586 #13585
[instance] 442749772 ; 1
[assign] (not #13585) justification -1: 1124 -1125
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13585
[conflict] #13585
[pop] 1 2
[assign] #13585 axiom
[assign] #6355 clause 1125 -2056
[assign] #12329 bin 1125
[decide-and-or] #12330 #6385
[push] 1
[assign] (not #6367) decision axiom
[eq-expl] #842 root
[new-match] 3803799307 #28 #27 #842 ; #6367
[mk-app] #13586 = #6367 #6366
[mk-app] #13587 not #28
[mk-app] #13588 or #13587 #13586
[instance] 3803799307 ; 1
[assign] (not #13586) justification -1: 1127 -1128
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13586
[conflict] #13586
[pop] 1 2
[assign] #13586 axiom
[assign] #6367 clause 1128 -2057
[assign] #12337 bin 1128
[decide-and-or] #6480 #6479
[push] 1
[assign] (not #6471) decision axiom
[eq-expl] #861 root
[new-match] 1807520109 #28 #27 #861 ; #6471
[mk-app] #13587 = #6471 #6470
[mk-app] #13588 not #28
[mk-app] #13589 or #13588 #13587
[instance] 1807520109 ; 1
[assign] (not #13587) justification -1: 1138 -1139
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13587
[conflict] #13587
[pop] 1 2
[assign] #13587 axiom
[assign] #6471 clause 1139 -2058
[assign] #6477 bin 1139
[decide-and-or] #6522 #6521
[push] 1
[assign] (not #6512) decision axiom
[eq-expl] #885 root
[new-match] 1676288833 #28 #27 #885 ; #6512
[mk-app] #13588 = #6512 #6511
[mk-app] #13589 not #28
[mk-app] #13590 or #13589 #13588
[instance] 1676288833 ; 1
[assign] (not #13588) justification -1: 1146 -1147
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13588
[conflict] #13588
[pop] 1 2
[assign] #13588 axiom
[assign] #6512 clause 1147 -2059
[assign] #6519 bin 1147
[decide-and-or] #6553 #6556
[push] 1
[assign] (not #6529) decision axiom
[eq-expl] #918 root
[new-match] 470546221 #28 #27 #918 ; #6529
[mk-app] #13589 = #6529 #6528
[mk-app] #13590 not #28
[mk-app] #13591 or #13590 #13589
[instance] 470546221 ; 1
[assign] (not #13589) justification -1: 1150 -1151
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13589
[conflict] #13589
[pop] 1 2
[assign] #13589 axiom
[assign] #6529 clause 1151 -2060
[assign] #6562 bin 1151
[decide-and-or] #6578 #6577
[push] 1
[assign] (not #6570) decision axiom
[eq-expl] #863 root
[new-match] 3983676045 #28 #27 #863 ; #6570
[mk-app] #13590 = #6570 #6569
[mk-app] #13591 not #28
[mk-app] #13592 or #13591 #13590
[instance] 3983676045 ; 1
[assign] (not #13590) justification -1: 1154 -1155
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13590
[conflict] #13590
[pop] 1 2
[assign] #13590 axiom
[assign] #6570 clause 1155 -2061
[assign] #6575 bin 1155
[decide-and-or] #11030 #6622
[push] 1
[assign] (not #6610) decision axiom
[eq-expl] #919 root
[new-match] 4074252629 #28 #27 #919 ; #6610
[mk-app] #13591 = #6610 #6584
[mk-app] #13592 not #28
[mk-app] #13593 or #13592 #13591
[instance] 4074252629 ; 1
[assign] (not #13591) justification -1: 1158 -1161
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13591
[conflict] #13591
[pop] 1 2
[assign] #13591 axiom
[assign] #6610 clause 1161 -2062
[assign] #11029 bin 1161
[decide-and-or] #6623 #6660
[push] 1
[assign] (not #6648) decision axiom
[eq-expl] #925 root
[new-match] 3157823172 #28 #27 #925 ; #6648
[mk-app] #13592 = #6648 #6624
[mk-app] #13593 not #28
[mk-app] #13594 or #13593 #13592
[instance] 3157823172 ; 1
[assign] (not #13592) justification -1: 1163 -1166
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13592
[conflict] #13592
[pop] 1 2
[assign] #13592 axiom
[assign] #6648 clause 1166 -2063
[assign] #6647 bin 1166
[decide-and-or] #6661 #6697
[push] 1
[assign] (not #6685) decision axiom
[eq-expl] #926 root
[new-match] 148357799 #28 #27 #926 ; #6685
[mk-app] #13593 = #6685 #6662
[mk-app] #13594 not #28
[mk-app] #13595 or #13594 #13593
[instance] 148357799 ; 1
[assign] (not #13593) justification -1: 1168 -1171
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13593
[conflict] #13593
[pop] 1 2
[assign] #13593 axiom
[assign] #6685 clause 1171 -2064
[assign] #6684 bin 1171
[decide-and-or] #6719 #6718
[push] 1
[assign] (not #6711) decision axiom
[eq-expl] #860 root
[new-match] 1440037017 #28 #27 #860 ; #6711
[mk-app] #13594 = #6711 #6710
[mk-app] #13595 not #28
[mk-app] #13596 or #13595 #13594
[instance] 1440037017 ; 1
[assign] (not #13594) justification -1: 1174 -1175
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13594
[conflict] #13594
[pop] 1 2
[assign] #13594 axiom
[assign] #6711 clause 1175 -2065
[assign] #6716 bin 1175
[decide-and-or] #6735 #6734
[push] 1
[assign] (not #6726) decision axiom
[eq-expl] #920 root
[new-match] 431311549 #28 #27 #920 ; #6726
[mk-app] #13595 = #6726 #6725
[mk-app] #13596 not #28
[mk-app] #13597 or #13596 #13595
[instance] 431311549 ; 1
[assign] (not #13595) justification -1: 1178 -1179
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13595
[conflict] #13595
[pop] 1 2
[assign] #13595 axiom
[assign] #6726 clause 1179 -2066
[assign] #6732 bin 1179
[push] 1
[assign] (not #6752) decision axiom
[assign] (not #6769) bin -1188
[assign] #12393 clause 1187 1188 1189
[eq-expl] #924 root
[new-match] 3612831808 #28 #27 #924 ; #6769
[mk-app] #13596 fuel_bool_default #924
[mk-app] #13597 = #6769 #13596
[mk-app] #13598 not #28
[mk-app] #13599 or #13598 #13597
[instance] 3612831808 ; 1
[attach-enode] #13596 1
[assign] #13597 justification -1: 2
[end-of-instance]
[assign] (not #13596) clause -2067 -2068
[decide-and-or] #12393 #12389
[push] 2
[assign] (not #6758) decision axiom
[eq-expl] #6750 root
[new-match] 1640759853 #169 #168 #6750 ; #6751
[mk-app] #13600 %I #6751
[mk-app] #13601 = #6750 #13600
[attach-meaning] #363 arith (- 1)
[mk-app] #13602 * #363 #13600
[mk-app] #13603 Int
[attach-meaning] #13603 arith (- 10)
[mk-app] #13604 = #13600 #6750
[inst-discovered] theory-solving 0x0 arith# ; #13601
[mk-app] #13602 = #13601 #13604
[instance] 0x0 #13602
[attach-enode] #13602 0
[end-of-instance]
[mk-app] #13602 not #169
[mk-app] #13603 or #13602 #13604
[instance] 1640759853 ; 1
[attach-enode] #13600 1
[attach-enode] #13604 1
[assign] #13604 justification -1: 25
[end-of-instance]
[decide-and-or] #12401 #6795
[push] 3
[assign] (not #6777) decision axiom
[eq-expl] #921 root
[new-match] 2455888318 #28 #27 #921 ; #6777
[mk-app] #13605 = #6777 #6776
[mk-app] #13606 or #13598 #13605
[instance] 2455888318 ; 1
[assign] (not #13605) justification -1: 1191 -1192
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13605
[conflict] #13605
[pop] 1 4
[assign] #13605 axiom
[assign] #6777 clause 1192 -2070
[assign] #12398 bin 1192
[decide-and-or] #12416 #6806
[push] 3
[assign] (not #6798) decision axiom
[eq-expl] #922 root
[new-match] 4137387426 #28 #27 #922 ; #6798
[mk-app] #13606 = #6798 #6797
[mk-app] #13607 or #13598 #13606
[instance] 4137387426 ; 1
[assign] (not #13606) justification -1: 1194 -1195
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13606
[conflict] #13606
[pop] 1 4
[assign] #13606 axiom
[assign] #6798 clause 1195 -2071
[assign] #12415 bin 1195
[decide-and-or] #6835 #6834
[push] 3
[assign] (not #6825) decision axiom
[eq-expl] #923 root
[new-match] 429547716 #28 #27 #923 ; #6825
[mk-app] #13607 = #6825 #6808
[mk-app] #13608 or #13598 #13607
[instance] 429547716 ; 1
[assign] (not #13607) justification -1: 1197 -1199
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13607
[conflict] #13607
[pop] 1 4
[assign] #13607 axiom
[assign] #6825 clause 1199 -2072
[assign] #6832 bin 1199
[decide-and-or] #6919 #6918
[push] 3
[assign] (not #6906) decision axiom
[eq-expl] #880 root
[new-match] 3722022843 #28 #27 #880 ; #6906
[mk-app] #13608 = #6906 #6899
[mk-app] #13609 or #13598 #13608
[instance] 3722022843 ; 1
[assign] (not #13608) justification -1: 1206 -1208
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13608
[conflict] #13608
[pop] 1 4
[assign] #13608 axiom
[assign] #6906 clause 1208 -2073
[assign] #6916 bin 1208
[decide-and-or] #11032 #6965
[push] 3
[assign] (not #6954) decision axiom
[eq-expl] #917 root
[new-match] 232799774 #28 #27 #917 ; #6954
[mk-app] #13609 = #6954 #6943
[mk-app] #13610 or #13598 #13609
[instance] 232799774 ; 1
[assign] (not #13609) justification -1: 1212 -1214
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13609
[conflict] #13609
[pop] 1 4
[assign] #13609 axiom
[assign] #6954 clause 1214 -2074
[assign] #6757 bin 1214
[decide-and-or] #7033 #7032
[push] 3
[assign] (not #7003) decision axiom
[eq-expl] #939 root
[new-match] 2302106912 #28 #27 #939 ; #7003
[mk-app] #13610 = #7003 #7002
[mk-app] #13611 or #13598 #13610
[instance] 2302106912 ; 1
[assign] (not #13610) justification -1: 1220 -1221
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13610
[conflict] #13610
[pop] 1 4
[assign] #13610 axiom
[assign] #7003 clause 1221 -2075
[assign] #7031 bin 1221
[decide-and-or] #12456 #7050
[push] 3
[assign] (not #7035) decision axiom
[eq-expl] #940 root
[new-match] 3725680915 #28 #27 #940 ; #7035
[mk-app] #13611 = #7035 #7034
[mk-app] #13612 or #13598 #13611
[instance] 3725680915 ; 1
[assign] (not #13611) justification -1: 1223 -1224
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13611
[conflict] #13611
[pop] 1 4
[assign] #13611 axiom
[assign] #7035 clause 1224 -2076
[assign] #12453 bin 1224
[decide-and-or] #12483 #7154
[push] 3
[assign] (not #7105) decision axiom
[eq-expl] #941 root
[new-match] 92221517 #28 #27 #941 ; #7105
[mk-app] #13612 fuel_bool_default #941
[mk-app] #13613 = #7105 #13612
[mk-app] #13614 or #13598 #13613
[instance] 92221517 ; 1
[attach-enode] #13612 1
[assign] #13613 justification -1: 2
[end-of-instance]
[assign] (not #13612) clause -2077 -2078
[decide-and-or] #7187 #7186
[push] 4
[assign] (not #7171) decision axiom
[eq-expl] #942 root
[new-match] 3838105047 #28 #27 #942 ; #7171
[mk-app] #13615 fuel_bool_default #942
[mk-app] #13616 = #7171 #13615
[mk-app] #13617 or #13598 #13616
[instance] 3838105047 ; 1
[attach-enode] #13615 1
[assign] #13616 justification -1: 2
[end-of-instance]
[assign] (not #13615) clause -2079 -2080
[decide-and-or] #12491 #7211
[push] 5
[assign] (not #7189) decision axiom
[eq-expl] #957 root
[new-match] 3733131705 #28 #27 #957 ; #7189
[mk-app] #13618 = #7189 #7188
[mk-app] #13619 or #13598 #13618
[instance] 3733131705 ; 1
[assign] (not #13618) justification -1: 1232 -1233
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13618
[conflict] #13618
[pop] 1 6
[assign] #13618 axiom
[assign] #7189 clause 1233 -2081
[assign] #12488 bin 1233
[eq-expl] #3923 root
[new-match] 993207500 #12488 #7202 #3923 ; #3924
[mk-app] #13619 >= #3764 #334
[mk-app] #13620 not #13619
[mk-app] #13621 vstd!seq.Seq.len.? #120 #244 #3912
[mk-app] #13622 * #363 #13621
[mk-app] #13623 + #3764 #13622
[mk-app] #13624 <= #13623 #334
[mk-app] #13625 not #13624
[mk-app] #13626 u_tokenizer!text.blen.? #3912
[mk-app] #13627 * #363 #13626
[mk-app] #13628 + #330 #13627
[mk-app] #13629 >= #13628 #289
[mk-app] #13630 not #13629
[mk-app] #13631 or #13620 #13625 #13630
[mk-app] #13632 = #13631 #3924
[mk-app] #13633 not #13632
[mk-app] #13634 not #13631
[inst-discovered] theory-solving 0x0 basic# ; #13633
[mk-app] #13634 = #13633 #13633
[instance] 0x0 #13634
[attach-enode] #13634 0
[end-of-instance]
[mk-app] #13634 not #12488
[mk-app] #13635 or #13634 #13633
[instance] 993207500 ; 1
[attach-enode] #13621 1
[attach-enode] #13622 1
[attach-enode] #13623 1
[attach-enode] #13626 1
[attach-enode] #13627 1
[attach-enode] #13628 1
[assign] (not #13632) justification -1: 1234
[end-of-instance]
[assign] (not #13631) clause -2085 2086
[assign] #13619 clause 2082 2085
[assign] #13624 clause 2083 2085
[assign] #13629 clause 2084 2085
[mk-app] #13636 <= #330 #313
[mk-app] #13637 >= #330 #313
[assign] #13636 justification -1: 52
[assign] #13637 justification -1: 52
[mk-app] #13638 = #3865 #13621
[attach-meaning] #363 arith (- 1)
[mk-app] #13639 + #3865 #13622
[mk-app] #13640 <= #13639 #334
[mk-app] #13641 >= #13639 #334
[assign] #13638 justification -1: 1962
[attach-enode] #13638 0
[attach-enode] #13639 0
[assign] #13640 justification -1: 2089
[assign] #13641 justification -1: 2089
[new-match] 2112648281 #11029 #6617 #3912 ; #13626
[mk-app] #13642 has_type #3903 #3200
[mk-app] #13643 not #13642
[mk-app] #13644 u_tokenizer!text.blen.? #3903
[mk-app] #13645 u_tokenizer!text.rec%blen.? #3903 #6613
[mk-app] #13646 = #13644 #13645
[mk-app] #13647 or #13643 #13646
[mk-app] #13648 not #11029
[mk-app] #13649 or #13648 #13643 #13646
[instance] 2112648281 ; 2
[attach-enode] #13642 2
[attach-enode] #13644 2
[attach-enode] #6612 2
[attach-enode] #6613 2
[attach-enode] #13645 2
[attach-enode] #13646 2
[end-of-instance]
[decide-and-or] #7361 #7360
[push] 5
[assign] (not #7353) decision axiom
[eq-expl] #938 root
[new-match] 2865873068 #28 #27 #938 ; #7353
[mk-app] #13650 = #7353 #7352
[mk-app] #13651 or #13598 #13650
[instance] 2865873068 ; 1
[assign] (not #13650) justification -1: 1242 -1243
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13650
[conflict] #13650
[pop] 1 6
[assign] #13650 axiom
[pop] 4 5
[assign] #13605 axiom
[assign] #13606 axiom
[assign] #13607 axiom
[assign] #13608 axiom
[assign] #13609 axiom
[assign] #13610 axiom
[assign] #13611 axiom
[assign] #13618 axiom
[assign] #13650 axiom
[mk-app] #13604 <= #330 #313
[mk-app] #13636 >= #330 #313
[assign] #13604 justification -1: 52
[assign] #13636 justification -1: 52
[assign] #6777 clause 1192 -2067
[assign] #6798 clause 1195 -2068
[assign] #6825 clause 1199 -2069
[assign] #6906 clause 1208 -2070
[assign] #6954 clause 1214 -2071
[assign] #7003 clause 1221 -2072
[assign] #7035 clause 1224 -2073
[assign] #7189 clause 1233 -2074
[assign] #7353 clause 1243 -2075
[assign] #12398 bin 1192
[assign] #12415 bin 1195
[assign] #6832 bin 1199
[assign] #6916 bin 1208
[assign] #6757 bin 1214
[assign] #7031 bin 1221
[assign] #12453 bin 1224
[assign] #12488 bin 1233
[assign] #7358 bin 1243
[new-match] 993207500 #12488 #7202 #3923 ; #3924
[mk-app] #13637 not #13631
[inst-discovered] theory-solving 0x0 basic# ; #13633
[mk-app] #13637 = #13633 #13633
[instance] 0x0 #13637
[attach-enode] #13637 0
[end-of-instance]
[mk-app] #13637 not #12488
[mk-app] #13638 or #13637 #13633
[instance] 993207500 ; 1
[attach-enode] #13621 1
[attach-enode] #13622 1
[attach-enode] #13623 1
[attach-enode] #13626 1
[attach-enode] #13627 1
[attach-enode] #13628 1
[assign] (not #13632) justification -1: 1234
[end-of-instance]
[assign] (not #13631) clause -2081 2082
[assign] #13619 clause 2078 2081
[assign] #13624 clause 2079 2081
[assign] #13629 clause 2080 2081
[mk-app] #13639 = #3865 #13621
[attach-meaning] #363 arith (- 1)
[mk-app] #13640 + #3865 #13622
[mk-app] #13641 <= #13640 #334
[mk-app] #13648 >= #13640 #334
[assign] #13639 justification -1: 1962
[attach-enode] #13639 0
[attach-enode] #13640 0
[assign] #13641 justification -1: 2083
[assign] #13648 justification -1: 2083
[new-match] 2112648281 #11029 #6617 #3912 ; #13626
[mk-app] #13649 not #11029
[mk-app] #13634 or #13649 #13643 #13646
[instance] 2112648281 ; 2
[attach-enode] #13642 2
[attach-enode] #13644 2
[attach-enode] #6612 2
[attach-enode] #6613 2
[attach-enode] #13645 2
[attach-enode] #13646 2
[end-of-instance]
[push] 1
[assign] (not #6752) decision axiom
[assign] (not #6769) bin -1188
[assign] #12393 clause 1187 1188 1189
[new-match] 3612831808 #28 #27 #924 ; #6769
[mk-app] #13635 not #28
[mk-app] #13598 or #13635 #13597
[instance] 3612831808 ; 1
[attach-enode] #13596 1
[assign] #13597 justification -1: 2
[end-of-instance]
[assign] (not #13596) clause -2088 -2089
[decide-and-or] #12393 #12389
[push] 2
[assign] (not #6758) decision axiom
[new-match] 1640759853 #169 #168 #6750 ; #6751
[attach-meaning] #363 arith (- 1)
[mk-app] #13617 * #363 #13600
[mk-app] #13614 Int
[attach-meaning] #13614 arith (- 10)
[mk-app] #13602 = #13600 #6750
[inst-discovered] theory-solving 0x0 arith# ; #13601
[mk-app] #13617 = #13601 #13602
[instance] 0x0 #13617
[attach-enode] #13617 0
[end-of-instance]
[mk-app] #13617 not #169
[mk-app] #13614 or #13617 #13602
[instance] 1640759853 ; 1
[attach-enode] #13600 1
[attach-enode] #13602 1
[assign] #13602 justification -1: 25
[end-of-instance]
[decide-and-or] #12483 #7154
[push] 3
[assign] (not #7105) decision axiom
[new-match] 92221517 #28 #27 #941 ; #7105
[mk-app] #13603 or #13635 #13613
[instance] 92221517 ; 1
[attach-enode] #13612 1
[assign] #13613 justification -1: 2
[end-of-instance]
[assign] (not #13612) clause -2091 -2092
[decide-and-or] #7187 #7186
[push] 4
[assign] (not #7171) decision axiom
[new-match] 3838105047 #28 #27 #942 ; #7171
[mk-app] #13599 or #13635 #13616
[instance] 3838105047 ; 1
[attach-enode] #13615 1
[assign] #13616 justification -1: 2
[end-of-instance]
[assign] (not #13615) clause -2093 -2094
[decide-and-or] #7410 #7423
[push] 5
[assign] (not #7411) decision axiom
[eq-expl] #949 root
[new-match] 2571033566 #28 #27 #949 ; #7411
[mk-app] #13651 = #7411 #7390
[mk-app] #13652 or #13635 #13651
[instance] 2571033566 ; 1
[assign] (not #13651) justification -1: 1249 -1252
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13651
[conflict] #13651
[pop] 1 6
[assign] #13651 axiom
[assign] #7411 clause 1252 -2095
[assign] #7409 bin 1252
[decide-and-or] #7532 #7531
[push] 5
[assign] (not #7525) decision axiom
[eq-expl] #834 root
[new-match] 2533596664 #28 #27 #834 ; #7525
[mk-app] #13652 = #7525 #7524
[mk-app] #13653 or #13635 #13652
[instance] 2533596664 ; 1
[assign] (not #13652) justification -1: 1261 -1262
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13652
[conflict] #13652
[pop] 1 6
[assign] #13652 axiom
[assign] #7525 clause 1262 -2096
[assign] #7529 bin 1262
[decide-and-or] #12616 #7666
[push] 5
[assign] (not #7643) decision axiom
[eq-expl] #935 root
[new-match] 836947096 #28 #27 #935 ; #7643
[mk-app] #13653 = #7643 #7642
[mk-app] #13654 or #13635 #13653
[instance] 836947096 ; 1
[assign] (not #13653) justification -1: 1273 -1274
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13653
[conflict] #13653
[pop] 1 6
[assign] #13653 axiom
[assign] #7643 clause 1274 -2097
[assign] #12615 bin 1274
[decide-and-or] #12637 #7688
[push] 5
[assign] (not #7677) decision axiom
[eq-expl] #936 root
[new-match] 2733495741 #28 #27 #936 ; #7677
[mk-app] #13654 = #7677 #7676
[mk-app] #13655 or #13635 #13654
[instance] 2733495741 ; 1
[assign] (not #13654) justification -1: 1276 -1277
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13654
[conflict] #13654
[pop] 1 6
[assign] #13654 axiom
[assign] #7677 clause 1277 -2098
[assign] #12636 bin 1277
[decide-and-or] #12657 #7718
[push] 5
[assign] (not #7694) decision axiom
[eq-expl] #937 root
[new-match] 3318626155 #28 #27 #937 ; #7694
[mk-app] #13655 = #7694 #7693
[mk-app] #13656 or #13635 #13655
[instance] 3318626155 ; 1
[assign] (not #13655) justification -1: 1279 -1280
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13655
[conflict] #13655
[pop] 1 6
[assign] #13655 axiom
[assign] #7694 clause 1280 -2099
[assign] #12656 bin 1280
[decide-and-or] #12659 #7751
[push] 5
[assign] (not #7738) decision axiom
[eq-expl] #794 root
[new-match] 501976029 #28 #27 #794 ; #7738
[mk-app] #13656 = #7738 #7737
[mk-app] #13657 or #13635 #13656
[instance] 501976029 ; 1
[assign] (not #13656) justification -1: 1284 -1285
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13656
[conflict] #13656
[pop] 1 6
[assign] #13656 axiom
[assign] #7738 clause 1285 -2100
[assign] #12662 bin 1285
[decide-and-or] #12660 #7764
[push] 5
[assign] (not #7754) decision axiom
[eq-expl] #795 root
[new-match] 2147628279 #28 #27 #795 ; #7754
[mk-app] #13657 = #7754 #7753
[mk-app] #13658 or #13635 #13657
[instance] 2147628279 ; 1
[assign] (not #13657) justification -1: 1287 -1288
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13657
[conflict] #13657
[pop] 1 6
[assign] #13657 axiom
[assign] #7754 clause 1288 -2101
[assign] #12665 bin 1288
[decide-and-or] #12663 #7777
[push] 5
[assign] (not #7767) decision axiom
[eq-expl] #796 root
[new-match] 2685446006 #28 #27 #796 ; #7767
[mk-app] #13658 = #7767 #7766
[mk-app] #13659 or #13635 #13658
[instance] 2685446006 ; 1
[assign] (not #13658) justification -1: 1290 -1291
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13658
[conflict] #13658
[pop] 1 6
[assign] #13658 axiom
[assign] #7767 clause 1291 -2102
[assign] #12668 bin 1291
[decide-and-or] #12666 #7790
[push] 5
[assign] (not #7780) decision axiom
[eq-expl] #797 root
[new-match] 2980896240 #28 #27 #797 ; #7780
[mk-app] #13659 = #7780 #7779
[mk-app] #13660 or #13635 #13659
[instance] 2980896240 ; 1
[assign] (not #13659) justification -1: 1293 -1294
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13659
[conflict] #13659
[pop] 1 6
[assign] #13659 axiom
[assign] #7780 clause 1294 -2103
[assign] #12671 bin 1294
[decide-and-or] #12669 #7805
[push] 5
[assign] (not #7793) decision axiom
[eq-expl] #798 root
[new-match] 4283842245 #28 #27 #798 ; #7793
[mk-app] #13660 = #7793 #7792
[mk-app] #13661 or #13635 #13660
[instance] 4283842245 ; 1
[assign] (not #13660) justification -1: 1296 -1297
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13660
[conflict] #13660
[pop] 1 6
[assign] #13660 axiom
[assign] #7793 clause 1297 -2104
[assign] #12674 bin 1297
[decide-and-or] #7816 #7815
[push] 5
[assign] (not #7808) decision axiom
[eq-expl] #802 root
[new-match] 1147251111 #28 #27 #802 ; #7808
[mk-app] #13661 = #7808 #7807
[mk-app] #13662 or #13635 #13661
[instance] 1147251111 ; 1
[assign] (not #13661) justification -1: 1299 -1300
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13661
[conflict] #13661
[pop] 1 6
[assign] #13661 axiom
[assign] #7808 clause 1300 -2105
[assign] #7814 bin 1300
[decide-and-or] #12675 #7830
[push] 5
[assign] (not #7818) decision axiom
[eq-expl] #808 root
[new-match] 1065041317 #28 #27 #808 ; #7818
[mk-app] #13662 = #7818 #7817
[mk-app] #13663 or #13635 #13662
[instance] 1065041317 ; 1
[assign] (not #13662) justification -1: 1302 -1303
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13662
[conflict] #13662
[pop] 1 6
[assign] #13662 axiom
[assign] #7818 clause 1303 -2106
[assign] #12678 bin 1303
[decide-and-or] #12676 #7859
[push] 5
[assign] (not #7841) decision axiom
[eq-expl] #809 root
[new-match] 4281253212 #28 #27 #809 ; #7841
[mk-app] #13663 = #7841 #7832
[mk-app] #13664 or #13635 #13663
[instance] 4281253212 ; 1
[assign] (not #13663) justification -1: 1305 -1307
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13663
[conflict] #13663
[pop] 1 6
[assign] #13663 axiom
[assign] #7841 clause 1307 -2107
[assign] #12681 bin 1307
[decide-and-or] #12679 #7882
[push] 5
[assign] (not #7869) decision axiom
[eq-expl] #810 root
[new-match] 1495065429 #28 #27 #810 ; #7869
[mk-app] #13664 = #7869 #7868
[mk-app] #13665 or #13635 #13664
[instance] 1495065429 ; 1
[assign] (not #13664) justification -1: 1309 -1310
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13664
[conflict] #13664
[pop] 1 6
[assign] #13664 axiom
[assign] #7869 clause 1310 -2108
[assign] #12684 bin 1310
[decide-and-or] #12685 #7917
[push] 5
[assign] (not #7885) decision axiom
[eq-expl] #811 root
[new-match] 2383791469 #28 #27 #811 ; #7885
[mk-app] #13665 = #7885 #7884
[mk-app] #13666 or #13635 #13665
[instance] 2383791469 ; 1
[assign] (not #13665) justification -1: 1312 -1313
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13665
[conflict] #13665
[pop] 1 6
[assign] #13665 axiom
[assign] #7885 clause 1313 -2109
[assign] #12693 bin 1313
[decide-and-or] #7931 #7930
[push] 5
[assign] (not #7920) decision axiom
[eq-expl] #837 root
[new-match] 1401768673 #28 #27 #837 ; #7920
[mk-app] #13666 = #7920 #7919
[mk-app] #13667 or #13635 #13666
[instance] 1401768673 ; 1
[assign] (not #13666) justification -1: 1315 -1316
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13666
[conflict] #13666
[pop] 1 6
[assign] #13666 axiom
[assign] #7920 clause 1316 -2110
[assign] #7929 bin 1316
[decide-and-or] #7943 #7942
[push] 5
[assign] (not #7933) decision axiom
[eq-expl] #838 root
[new-match] 3219033524 #28 #27 #838 ; #7933
[mk-app] #13667 = #7933 #7932
[mk-app] #13668 or #13635 #13667
[instance] 3219033524 ; 1
[assign] (not #13667) justification -1: 1318 -1319
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13667
[conflict] #13667
[pop] 1 6
[assign] #13667 axiom
[assign] #7933 clause 1319 -2111
[assign] #7941 bin 1319
[decide-and-or] #7955 #7954
[push] 5
[assign] (not #7945) decision axiom
[eq-expl] #839 root
[new-match] 3295268268 #28 #27 #839 ; #7945
[mk-app] #13668 = #7945 #7944
[mk-app] #13669 or #13635 #13668
[instance] 3295268268 ; 1
[assign] (not #13668) justification -1: 1321 -1322
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13668
[conflict] #13668
[pop] 1 6
[assign] #13668 axiom
[assign] #7945 clause 1322 -2112
[assign] #7953 bin 1322
[decide-and-or] #7964 #7963
[push] 5
[assign] (not #7957) decision axiom
[eq-expl] #856 root
[new-match] 1506222808 #28 #27 #856 ; #7957
[mk-app] #13669 = #7957 #7956
[mk-app] #13670 or #13635 #13669
[instance] 1506222808 ; 1
[assign] (not #13669) justification -1: 1324 -1325
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13669
[conflict] #13669
[pop] 1 6
[assign] #13669 axiom
[assign] #7957 clause 1325 -2113
[assign] #7961 bin 1325
[decide-and-or] #7978 #7977
[push] 5
[assign] (not #7966) decision axiom
[eq-expl] #897 root
[new-match] 838440118 #28 #27 #897 ; #7966
[mk-app] #13670 = #7966 #7965
[mk-app] #13671 or #13635 #13670
[instance] 838440118 ; 1
[assign] (not #13670) justification -1: 1327 -1328
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13670
[conflict] #13670
[pop] 1 6
[assign] #13670 axiom
[assign] #7966 clause 1328 -2114
[assign] #7976 bin 1328
[decide-and-or] #7991 #7990
[push] 5
[assign] (not #7980) decision axiom
[eq-expl] #898 root
[new-match] 3040582578 #28 #27 #898 ; #7980
[mk-app] #13671 = #7980 #7979
[mk-app] #13672 or #13635 #13671
[instance] 3040582578 ; 1
[assign] (not #13671) justification -1: 1330 -1331
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13671
[conflict] #13671
[pop] 1 6
[assign] #13671 axiom
[assign] #7980 clause 1331 -2115
[assign] #7989 bin 1331
[decide-and-or] #12686 #8005
[push] 5
[assign] (not #7993) decision axiom
[eq-expl] #899 root
[new-match] 3843748118 #28 #27 #899 ; #7993
[mk-app] #13672 = #7993 #7992
[mk-app] #13673 or #13635 #13672
[instance] 3843748118 ; 1
[assign] (not #13672) justification -1: 1333 -1334
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13672
[conflict] #13672
[pop] 1 6
[assign] #13672 axiom
[assign] #7993 clause 1334 -2116
[assign] #12696 bin 1334
[decide-and-or] #12694 #8018
[push] 5
[assign] (not #8008) decision axiom
[eq-expl] #900 root
[new-match] 174048308 #28 #27 #900 ; #8008
[mk-app] #13673 = #8008 #8007
[mk-app] #13674 or #13635 #13673
[instance] 174048308 ; 1
[assign] (not #13673) justification -1: 1336 -1337
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13673
[conflict] #13673
[pop] 1 6
[assign] #13673 axiom
[assign] #8008 clause 1337 -2117
[assign] #12699 bin 1337
[decide-and-or] #8031 #8030
[push] 5
[assign] (not #8021) decision axiom
[eq-expl] #901 root
[new-match] 1754918115 #28 #27 #901 ; #8021
[mk-app] #13674 = #8021 #8020
[mk-app] #13675 or #13635 #13674
[instance] 1754918115 ; 1
[assign] (not #13674) justification -1: 1339 -1340
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13674
[conflict] #13674
[pop] 1 6
[assign] #13674 axiom
[assign] #8021 clause 1340 -2118
[assign] #8029 bin 1340
[decide-and-or] #8040 #8039
[push] 5
[assign] (not #8033) decision axiom
[eq-expl] #902 root
[new-match] 947434203 #28 #27 #902 ; #8033
[mk-app] #13675 = #8033 #8032
[mk-app] #13676 or #13635 #13675
[instance] 947434203 ; 1
[assign] (not #13675) justification -1: 1342 -1343
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13675
[conflict] #13675
[pop] 1 6
[assign] #13675 axiom
[assign] #8033 clause 1343 -2119
[assign] #8037 bin 1343
[decide-and-or] #8049 #8048
[push] 5
[assign] (not #8042) decision axiom
[eq-expl] #903 root
[new-match] 3054948484 #28 #27 #903 ; #8042
[mk-app] #13676 = #8042 #8041
[mk-app] #13677 or #13635 #13676
[instance] 3054948484 ; 1
[assign] (not #13676) justification -1: 1345 -1346
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13676
[conflict] #13676
[pop] 1 6
[assign] #13676 axiom
[assign] #8042 clause 1346 -2120
[assign] #8046 bin 1346
[decide-and-or] #8058 #8057
[push] 5
[assign] (not #8051) decision axiom
[eq-expl] #904 root
[new-match] 3477004016 #28 #27 #904 ; #8051
[mk-app] #13677 = #8051 #8050
[mk-app] #13678 or #13635 #13677
[instance] 3477004016 ; 1
[assign] (not #13677) justification -1: 1348 -1349
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13677
[conflict] #13677
[pop] 1 6
[assign] #13677 axiom
[assign] #8051 clause 1349 -2121
[assign] #8055 bin 1349
[decide-and-or] #8067 #8066
[push] 5
[assign] (not #8060) decision axiom
[eq-expl] #905 root
[new-match] 2731257864 #28 #27 #905 ; #8060
[mk-app] #13678 = #8060 #8059
[mk-app] #13679 or #13635 #13678
[instance] 2731257864 ; 1
[assign] (not #13678) justification -1: 1351 -1352
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13678
[conflict] #13678
[pop] 1 6
[assign] #13678 axiom
[assign] #8060 clause 1352 -2122
[assign] #8064 bin 1352
[decide-and-or] #8076 #8075
[push] 5
[assign] (not #8069) decision axiom
[eq-expl] #906 root
[new-match] 143983938 #28 #27 #906 ; #8069
[mk-app] #13679 = #8069 #8068
[mk-app] #13680 or #13635 #13679
[instance] 143983938 ; 1
[assign] (not #13679) justification -1: 1354 -1355
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13679
[conflict] #13679
[pop] 1 6
[assign] #13679 axiom
[assign] #8069 clause 1355 -2123
[assign] #8073 bin 1355
[decide-and-or] #8085 #8084
[push] 5
[assign] (not #8078) decision axiom
[eq-expl] #907 root
[new-match] 198104211 #28 #27 #907 ; #8078
[mk-app] #13680 = #8078 #8077
[mk-app] #13681 or #13635 #13680
[instance] 198104211 ; 1
[assign] (not #13680) justification -1: 1357 -1358
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13680
[conflict] #13680
[pop] 1 6
[assign] #13680 axiom
[assign] #8078 clause 1358 -2124
[assign] #8082 bin 1358
[decide-and-or] #8094 #8093
[push] 5
[assign] (not #8087) decision axiom
[eq-expl] #908 root
[new-match] 10046772 #28 #27 #908 ; #8087
[mk-app] #13681 = #8087 #8086
[mk-app] #13682 or #13635 #13681
[instance] 10046772 ; 1
[assign] (not #13681) justification -1: 1360 -1361
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13681
[conflict] #13681
[pop] 1 6
[assign] #13681 axiom
[assign] #8087 clause 1361 -2125
[assign] #8091 bin 1361
[decide-and-or] #12697 #8109
[push] 5
[assign] (not #8096) decision axiom
[eq-expl] #909 root
[new-match] 4183216589 #28 #27 #909 ; #8096
[mk-app] #13682 = #8096 #8095
[mk-app] #13683 or #13635 #13682
[instance] 4183216589 ; 1
[assign] (not #13682) justification -1: 1363 -1364
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13682
[conflict] #13682
[pop] 1 6
[assign] #13682 axiom
[assign] #8096 clause 1364 -2126
[assign] #12702 bin 1364
[decide-and-or] #12703 #8128
[push] 5
[assign] (not #8112) decision axiom
[eq-expl] #910 root
[new-match] 656266065 #28 #27 #910 ; #8112
[mk-app] #13683 = #8112 #8111
[mk-app] #13684 or #13635 #13683
[instance] 656266065 ; 1
[assign] (not #13683) justification -1: 1366 -1367
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13683
[conflict] #13683
[pop] 5 6
[assign] #13651 axiom
[assign] #13652 axiom
[assign] #13653 axiom
[assign] #13654 axiom
[assign] #13655 axiom
[assign] #13656 axiom
[assign] #13657 axiom
[assign] #13658 axiom
[assign] #13659 axiom
[assign] #13660 axiom
[assign] #13661 axiom
[assign] #13662 axiom
[assign] #13663 axiom
[assign] #13664 axiom
[assign] #13665 axiom
[assign] #13666 axiom
[assign] #13667 axiom
[assign] #13668 axiom
[assign] #13669 axiom
[assign] #13670 axiom
[assign] #13671 axiom
[assign] #13672 axiom
[assign] #13673 axiom
[assign] #13674 axiom
[assign] #13675 axiom
[assign] #13676 axiom
[assign] #13677 axiom
[assign] #13678 axiom
[assign] #13679 axiom
[assign] #13680 axiom
[assign] #13681 axiom
[assign] #13682 axiom
[assign] #13683 axiom
[assign] #7411 clause 1252 -2088
[assign] #7525 clause 1262 -2089
[assign] #7643 clause 1274 -2090
[assign] #7677 clause 1277 -2091
[assign] #7694 clause 1280 -2092
[assign] #7738 clause 1285 -2093
[assign] #7754 clause 1288 -2094
[assign] #7767 clause 1291 -2095
[assign] #7780 clause 1294 -2096
[assign] #7793 clause 1297 -2097
[assign] #7808 clause 1300 -2098
[assign] #7818 clause 1303 -2099
[assign] #7841 clause 1307 -2100
[assign] #7869 clause 1310 -2101
[assign] #7885 clause 1313 -2102
[assign] #7920 clause 1316 -2103
[assign] #7933 clause 1319 -2104
[assign] #7945 clause 1322 -2105
[assign] #7957 clause 1325 -2106
[assign] #7966 clause 1328 -2107
[assign] #7980 clause 1331 -2108
[assign] #7993 clause 1334 -2109
[assign] #8008 clause 1337 -2110
[assign] #8021 clause 1340 -2111
[assign] #8033 clause 1343 -2112
[assign] #8042 clause 1346 -2113
[assign] #8051 clause 1349 -2114
[assign] #8060 clause 1352 -2115
[assign] #8069 clause 1355 -2116
[assign] #8078 clause 1358 -2117
[assign] #8087 clause 1361 -2118
[assign] #8096 clause 1364 -2119
[assign] #8112 clause 1367 -2120
[assign] #7409 bin 1252
[assign] #7529 bin 1262
[assign] #12615 bin 1274
[assign] #12636 bin 1277
[assign] #12656 bin 1280
[assign] #12662 bin 1285
[assign] #12665 bin 1288
[assign] #12668 bin 1291
[assign] #12671 bin 1294
[assign] #12674 bin 1297
[assign] #7814 bin 1300
[assign] #12678 bin 1303
[assign] #12681 bin 1307
[assign] #12684 bin 1310
[assign] #12693 bin 1313
[assign] #7929 bin 1316
[assign] #7941 bin 1319
[assign] #7953 bin 1322
[assign] #7961 bin 1325
[assign] #7976 bin 1328
[assign] #7989 bin 1331
[assign] #12696 bin 1334
[assign] #12699 bin 1337
[assign] #8029 bin 1340
[assign] #8037 bin 1343
[assign] #8046 bin 1346
[assign] #8055 bin 1349
[assign] #8064 bin 1352
[assign] #8073 bin 1355
[assign] #8082 bin 1358
[assign] #8091 bin 1361
[assign] #12702 bin 1364
[assign] #12706 bin 1367
[push] 1
[assign] (not #6752) decision axiom
[assign] (not #6769) bin -1188
[assign] #12393 clause 1187 1188 1189
[new-match] 3612831808 #28 #27 #924 ; #6769
[mk-app] #13602 not #28
[mk-app] #13635 or #13602 #13597
[instance] 3612831808 ; 1
[attach-enode] #13596 1
[assign] #13597 justification -1: 2
[end-of-instance]
[assign] (not #13596) clause -2121 -2122
[decide-and-or] #12393 #12389
[push] 2
[assign] (not #6758) decision axiom
[new-match] 1640759853 #169 #168 #6750 ; #6751
[attach-meaning] #363 arith (- 1)
[mk-app] #13684 * #363 #13600
[mk-app] #13599 Int
[attach-meaning] #13599 arith (- 10)
[mk-app] #13603 = #13600 #6750
[inst-discovered] theory-solving 0x0 arith# ; #13601
[mk-app] #13684 = #13601 #13603
[instance] 0x0 #13684
[attach-enode] #13684 0
[end-of-instance]
[mk-app] #13684 not #169
[mk-app] #13599 or #13684 #13603
[instance] 1640759853 ; 1
[attach-enode] #13600 1
[attach-enode] #13603 1
[assign] #13603 justification -1: 25
[end-of-instance]
[decide-and-or] #12483 #7154
[push] 3
[assign] (not #7105) decision axiom
[new-match] 92221517 #28 #27 #941 ; #7105
[mk-app] #13617 or #13602 #13613
[instance] 92221517 ; 1
[attach-enode] #13612 1
[assign] #13613 justification -1: 2
[end-of-instance]
[assign] (not #13612) clause -2124 -2125
[decide-and-or] #7187 #7186
[push] 4
[assign] (not #7171) decision axiom
[new-match] 3838105047 #28 #27 #942 ; #7171
[mk-app] #13614 or #13602 #13616
[instance] 3838105047 ; 1
[attach-enode] #13615 1
[assign] #13616 justification -1: 2
[end-of-instance]
[assign] (not #13615) clause -2126 -2127
[decide-and-or] #8138 #8137
[push] 5
[assign] (not #8131) decision axiom
[eq-expl] #911 root
[new-match] 887508348 #28 #27 #911 ; #8131
[mk-app] #13598 = #8131 #8130
[mk-app] #13685 or #13602 #13598
[instance] 887508348 ; 1
[assign] (not #13598) justification -1: 1369 -1370
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13598
[conflict] #13598
[pop] 1 6
[assign] #13598 axiom
[assign] #8131 clause 1370 -2128
[assign] #8135 bin 1370
[decide-and-or] #8147 #8146
[push] 5
[assign] (not #8140) decision axiom
[eq-expl] #912 root
[new-match] 1573487456 #28 #27 #912 ; #8140
[mk-app] #13685 = #8140 #8139
[mk-app] #13686 or #13602 #13685
[instance] 1573487456 ; 1
[assign] (not #13685) justification -1: 1372 -1373
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13685
[conflict] #13685
[pop] 1 6
[assign] #13685 axiom
[assign] #8140 clause 1373 -2129
[assign] #8144 bin 1373
[decide-and-or] #8161 #8160
[push] 5
[assign] (not #8149) decision axiom
[eq-expl] #913 root
[new-match] 1727686185 #28 #27 #913 ; #8149
[mk-app] #13686 = #8149 #8148
[mk-app] #13687 or #13602 #13686
[instance] 1727686185 ; 1
[assign] (not #13686) justification -1: 1375 -1376
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13686
[conflict] #13686
[pop] 1 6
[assign] #13686 axiom
[assign] #8149 clause 1376 -2130
[assign] #8159 bin 1376
[decide-and-or] #8170 #8169
[push] 5
[assign] (not #8163) decision axiom
[eq-expl] #914 root
[new-match] 973541251 #28 #27 #914 ; #8163
[mk-app] #13687 = #8163 #8162
[mk-app] #13688 or #13602 #13687
[instance] 973541251 ; 1
[assign] (not #13687) justification -1: 1378 -1379
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13687
[conflict] #13687
[pop] 1 6
[assign] #13687 axiom
[assign] #8163 clause 1379 -2131
[assign] #8167 bin 1379
[decide-and-or] #8179 #8178
[push] 5
[assign] (not #8172) decision axiom
[eq-expl] #915 root
[new-match] 1210215035 #28 #27 #915 ; #8172
[mk-app] #13688 = #8172 #8171
[mk-app] #13689 or #13602 #13688
[instance] 1210215035 ; 1
[assign] (not #13688) justification -1: 1381 -1382
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13688
[conflict] #13688
[pop] 1 6
[assign] #13688 axiom
[assign] #8172 clause 1382 -2132
[assign] #8176 bin 1382
[decide-and-or] #8193 #8192
[push] 5
[assign] (not #8181) decision axiom
[eq-expl] #916 root
[new-match] 2860752869 #28 #27 #916 ; #8181
[mk-app] #13689 = #8181 #8180
[mk-app] #13690 or #13602 #13689
[instance] 2860752869 ; 1
[assign] (not #13689) justification -1: 1384 -1385
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13689
[conflict] #13689
[pop] 1 6
[assign] #13689 axiom
[assign] #8181 clause 1385 -2133
[assign] #8191 bin 1385
[decide-and-or] #8204 #8203
[push] 5
[assign] (not #8195) decision axiom
[eq-expl] #927 root
[new-match] 2513291620 #28 #27 #927 ; #8195
[mk-app] #13690 = #8195 #8194
[mk-app] #13691 or #13602 #13690
[instance] 2513291620 ; 1
[assign] (not #13690) justification -1: 1387 -1388
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13690
[conflict] #13690
[pop] 1 6
[assign] #13690 axiom
[assign] #8195 clause 1388 -2134
[assign] #8201 bin 1388
[decide-and-or] #8215 #8214
[push] 5
[assign] (not #8206) decision axiom
[eq-expl] #928 root
[new-match] 1645965267 #28 #27 #928 ; #8206
[mk-app] #13691 = #8206 #8205
[mk-app] #13692 or #13602 #13691
[instance] 1645965267 ; 1
[assign] (not #13691) justification -1: 1390 -1391
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13691
[conflict] #13691
[pop] 1 6
[assign] #13691 axiom
[assign] #8206 clause 1391 -2135
[assign] #8212 bin 1391
[decide-and-or] #8229 #8228
[push] 5
[assign] (not #8217) decision axiom
[eq-expl] #929 root
[new-match] 2684780946 #28 #27 #929 ; #8217
[mk-app] #13692 = #8217 #8216
[mk-app] #13693 or #13602 #13692
[instance] 2684780946 ; 1
[assign] (not #13692) justification -1: 1393 -1394
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13692
[conflict] #13692
[pop] 1 6
[assign] #13692 axiom
[assign] #8217 clause 1394 -2136
[assign] #8227 bin 1394
[decide-and-or] #8243 #8242
[push] 5
[assign] (not #8231) decision axiom
[eq-expl] #930 root
[new-match] 2139895888 #28 #27 #930 ; #8231
[mk-app] #13693 = #8231 #8230
[mk-app] #13694 or #13602 #13693
[instance] 2139895888 ; 1
[assign] (not #13693) justification -1: 1396 -1397
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13693
[conflict] #13693
[pop] 1 6
[assign] #13693 axiom
[assign] #8231 clause 1397 -2137
[assign] #8241 bin 1397
[decide-and-or] #8254 #8253
[push] 5
[assign] (not #8245) decision axiom
[eq-expl] #931 root
[new-match] 2192652539 #28 #27 #931 ; #8245
[mk-app] #13694 = #8245 #8244
[mk-app] #13695 or #13602 #13694
[instance] 2192652539 ; 1
[assign] (not #13694) justification -1: 1399 -1400
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13694
[conflict] #13694
[pop] 1 6
[assign] #13694 axiom
[assign] #8245 clause 1400 -2138
[assign] #8251 bin 1400
[decide-and-or] #8266 #8265
[push] 5
[assign] (not #8256) decision axiom
[eq-expl] #932 root
[new-match] 1854333129 #28 #27 #932 ; #8256
[mk-app] #13695 = #8256 #8255
[mk-app] #13696 or #13602 #13695
[instance] 1854333129 ; 1
[assign] (not #13695) justification -1: 1402 -1403
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13695
[conflict] #13695
[pop] 1 6
[assign] #13695 axiom
[assign] #8256 clause 1403 -2139
[assign] #8263 bin 1403
[decide-and-or] #8280 #8279
[push] 5
[assign] (not #8268) decision axiom
[eq-expl] #933 root
[new-match] 1150010888 #28 #27 #933 ; #8268
[mk-app] #13696 = #8268 #8267
[mk-app] #13697 or #13602 #13696
[instance] 1150010888 ; 1
[assign] (not #13696) justification -1: 1405 -1406
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13696
[conflict] #13696
[pop] 1 6
[assign] #13696 axiom
[assign] #8268 clause 1406 -2140
[assign] #8278 bin 1406
[decide-and-or] #8294 #8293
[push] 5
[assign] (not #8282) decision axiom
[eq-expl] #934 root
[new-match] 2534289264 #28 #27 #934 ; #8282
[mk-app] #13697 = #8282 #8281
[mk-app] #13698 or #13602 #13697
[instance] 2534289264 ; 1
[assign] (not #13697) justification -1: 1408 -1409
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13697
[conflict] #13697
[pop] 1 6
[assign] #13697 axiom
[assign] #8282 clause 1409 -2141
[assign] #8292 bin 1409
[decide-and-or] #12714 #8323
[push] 5
[assign] (not #8296) decision axiom
[eq-expl] #943 root
[new-match] 3708115834 #28 #27 #943 ; #8296
[mk-app] #13698 = #8296 #8295
[mk-app] #13699 or #13602 #13698
[instance] 3708115834 ; 1
[assign] (not #13698) justification -1: 1411 -1412
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13698
[conflict] #13698
[pop] 1 6
[assign] #13698 axiom
[assign] #8296 clause 1412 -2142
[assign] #12713 bin 1412
[decide-and-or] #12726 #8374
[push] 5
[assign] (not #8349) decision axiom
[eq-expl] #944 root
[new-match] 2485762138 #28 #27 #944 ; #8349
[mk-app] #13699 = #8349 #8325
[mk-app] #13700 or #13602 #13699
[instance] 2485762138 ; 1
[assign] (not #13699) justification -1: 1414 -1417
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13699
[conflict] #13699
[pop] 1 6
[assign] #13699 axiom
[assign] #8349 clause 1417 -2143
[assign] #12724 bin 1417
[decide-and-or] #12727 #8490
[push] 5
[assign] (not #8451) decision axiom
[eq-expl] #945 root
[new-match] 1128690470 #28 #27 #945 ; #8451
[mk-app] #13700 = #8451 #8376
[mk-app] #13701 or #13602 #13700
[instance] 1128690470 ; 1
[assign] (not #13700) justification -1: 1419 -1422
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13700
[conflict] #13700
[pop] 1 6
[assign] #13700 axiom
[assign] #8451 clause 1422 -2144
[assign] #12735 bin 1422
[decide-and-or] #8481 #8504
[push] 5
[assign] (not #8493) decision axiom
[eq-expl] #947 root
[new-match] 1863975845 #28 #27 #947 ; #8493
[mk-app] #13701 = #8493 #8492
[mk-app] #13702 or #13602 #13701
[instance] 1863975845 ; 1
[assign] (not #13701) justification -1: 1424 -1425
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13701
[conflict] #13701
[pop] 1 6
[assign] #13701 axiom
[assign] #8493 clause 1425 -2145
[assign] #8480 bin 1425
[decide-and-or] #11087 #8563
[push] 5
[assign] (not #8551) decision axiom
[eq-expl] #946 root
[new-match] 3386740724 #28 #27 #946 ; #8551
[mk-app] #13702 = #8551 #8506
[mk-app] #13703 or #13602 #13702
[instance] 3386740724 ; 1
[assign] (not #13702) justification -1: 1427 -1430
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13702
[conflict] #13702
[pop] 1 6
[assign] #13702 axiom
[assign] #8551 clause 1430 -2146
[assign] #11086 bin 1430
[decide-and-or] #8590 #8589
[push] 5
[assign] (not #8579) decision axiom
[eq-expl] #948 root
[new-match] 2241599598 #28 #27 #948 ; #8579
[mk-app] #13703 = #8579 #8578
[mk-app] #13704 or #13602 #13703
[instance] 2241599598 ; 1
[assign] (not #13703) justification -1: 1434 -1435
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13703
[conflict] #13703
[pop] 1 6
[assign] #13703 axiom
[assign] #8579 clause 1435 -2147
[assign] #8587 bin 1435
[decide-and-or] #8685 #8684
[push] 5
[assign] (not #8592) decision axiom
[eq-expl] #950 root
[new-match] 345688269 #28 #27 #950 ; #8592
[mk-app] #13704 = #8592 #8591
[mk-app] #13705 or #13602 #13704
[instance] 345688269 ; 1
[assign] (not #13704) justification -1: 1437 -1438
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13704
[conflict] #13704
[pop] 1 6
[assign] #13704 axiom
[assign] #8592 clause 1438 -2148
[assign] #8683 bin 1438
[decide-and-or] #8701 #8700
[push] 5
[assign] (not #8687) decision axiom
[eq-expl] #951 root
[new-match] 2848770399 #28 #27 #951 ; #8687
[mk-app] #13705 = #8687 #8686
[mk-app] #13706 or #13602 #13705
[instance] 2848770399 ; 1
[assign] (not #13705) justification -1: 1440 -1441
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13705
[conflict] #13705
[pop] 1 6
[assign] #13705 axiom
[assign] #8687 clause 1441 -2149
[assign] #8698 bin 1441
[decide-and-or] #12749 #8836
[push] 5
[assign] (not #8712) decision axiom
[eq-expl] #952 root
[new-match] 3100445366 #28 #27 #952 ; #8712
[mk-app] #13706 = #8712 #8711
[mk-app] #13707 or #13602 #13706
[instance] 3100445366 ; 1
[assign] (not #13706) justification -1: 1444 -1445
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13706
[conflict] #13706
[pop] 1 6
[assign] #13706 axiom
[assign] #8712 clause 1445 -2150
[assign] #12748 bin 1445
[decide-and-or] #12750 #8936
[push] 5
[assign] (not #8905) decision axiom
[eq-expl] #953 root
[new-match] 2002288480 #28 #27 #953 ; #8905
[mk-app] #13707 fuel_bool_default #953
[mk-app] #13708 = #8905 #13707
[mk-app] #13709 or #13602 #13708
[instance] 2002288480 ; 1
[attach-enode] #13707 1
[assign] #13708 justification -1: 2
[end-of-instance]
[assign] (not #13707) clause -2151 -2152
[decide-and-or] #12783 #8957
[push] 6
[assign] (not #8939) decision axiom
[eq-expl] #954 root
[new-match] 2188584205 #28 #27 #954 ; #8939
[mk-app] #13710 = #8939 #8938
[mk-app] #13711 or #13602 #13710
[instance] 2188584205 ; 1
[assign] (not #13710) justification -1: 1452 -1453
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13710
[conflict] #13710
[pop] 1 7
[assign] #13710 axiom
[assign] #8939 clause 1453 -2153
[assign] #12782 bin 1453
[decide-and-or] #12797 #9025
[push] 6
[assign] (not #8999) decision axiom
[eq-expl] #955 root
[new-match] 198319157 #28 #27 #955 ; #8999
[mk-app] #13711 = #8999 #8959
[mk-app] #13712 or #13602 #13711
[instance] 198319157 ; 1
[assign] (not #13711) justification -1: 1455 -1458
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13711
[conflict] #13711
[pop] 1 7
[assign] #13711 axiom
[assign] #8999 clause 1458 -2154
[assign] #12795 bin 1458
[decide-and-or] #9045 #9044
[push] 6
[assign] (not #9028) decision axiom
[eq-expl] #956 root
[new-match] 3006977861 #28 #27 #956 ; #9028
[mk-app] #13712 = #9028 #9027
[mk-app] #13713 or #13602 #13712
[instance] 3006977861 ; 1
[assign] (not #13712) justification -1: 1460 -1461
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13712
[conflict] #13712
[pop] 1 7
[assign] #13712 axiom
[assign] #9028 clause 1461 -2155
[assign] #9043 bin 1461
[decide-and-or] #9054 #9053
[push] 6
[assign] (not #9047) decision axiom
[eq-expl] #958 root
[new-match] 1493869219 #28 #27 #958 ; #9047
[mk-app] #13713 = #9047 #9046
[mk-app] #13714 or #13602 #13713
[instance] 1493869219 ; 1
[assign] (not #13713) justification -1: 1463 -1464
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13713
[conflict] #13713
[pop] 1 7
[assign] #13713 axiom
[assign] #9047 clause 1464 -2156
[assign] #9051 bin 1464
[decide-and-or] #9067 #9066
[push] 6
[assign] (not #9056) decision axiom
[eq-expl] #959 root
[new-match] 1381210403 #28 #27 #959 ; #9056
[mk-app] #13714 = #9056 #9055
[mk-app] #13715 or #13602 #13714
[instance] 1381210403 ; 1
[assign] (not #13714) justification -1: 1466 -1467
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13714
[conflict] #13714
[pop] 1 7
[assign] #13714 axiom
[assign] #9056 clause 1467 -2157
[assign] #9064 bin 1467
[decide-and-or] #9085 #9084
[push] 6
[assign] (not #9069) decision axiom
[eq-expl] #960 root
[new-match] 179019388 #28 #27 #960 ; #9069
[mk-app] #13715 = #9069 #9068
[mk-app] #13716 or #13602 #13715
[instance] 179019388 ; 1
[assign] (not #13715) justification -1: 1469 -1470
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13715
[conflict] #13715
[pop] 1 7
[assign] #13715 axiom
[assign] #9069 clause 1470 -2158
[assign] #9083 bin 1470
[decide-and-or] #9092 #9091
[push] 6
[assign] (not #9087) decision axiom
[eq-expl] #961 root
[new-match] 3045544762 #28 #27 #961 ; #9087
[mk-app] #13716 = #9087 #9086
[mk-app] #13717 or #13602 #13716
[instance] 3045544762 ; 1
[assign] (not #13716) justification -1: 1472 -1473
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13716
[conflict] #13716
[pop] 1 7
[assign] #13716 axiom
[assign] #9087 clause 1473 -2159
[assign] #9089 bin 1473
[eq-expl] #8599 root
[new-match] 419580993 #2862 #2861 #8599 ; #8600
[mk-app] #13717 str%from_strlit #8600
[mk-app] #13718 = #13717 #8599
[mk-app] #13719 not #2862
[mk-app] #13720 or #13719 #13718
[instance] 419580993 ; 1
[attach-enode] #13717 1
[attach-enode] #13718 1
[assign] #13718 justification -1: 679
[end-of-instance]
[decide-and-or] #9099 #9098
[push] 6
[assign] (not #9094) decision axiom
[eq-expl] #962 root
[new-match] 2523994846 #28 #27 #962 ; #9094
[mk-app] #13721 = #9094 #9093
[mk-app] #13722 or #13602 #13721
[instance] 2523994846 ; 1
[assign] (not #13721) justification -1: 1475 -1476
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13721
[conflict] #13721
[pop] 1 7
[assign] #13721 axiom
[assign] #9094 clause 1476 -2161
[assign] #9096 bin 1476
[eq-expl] #8594 root
[new-match] 9436611 #2862 #2861 #8594 ; #8595
[mk-app] #13722 str%from_strlit #8595
[mk-app] #13723 = #13722 #8594
[mk-app] #13724 or #13719 #13723
[instance] 9436611 ; 1
[attach-enode] #13722 1
[attach-enode] #13723 1
[assign] #13723 justification -1: 679
[end-of-instance]
[decide-and-or] #9106 #9105
[push] 6
[assign] (not #9101) decision axiom
[eq-expl] #963 root
[new-match] 1708199496 #28 #27 #963 ; #9101
[mk-app] #13725 = #9101 #9100
[mk-app] #13726 or #13602 #13725
[instance] 1708199496 ; 1
[assign] (not #13725) justification -1: 1478 -1479
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13725
[conflict] #13725
[pop] 1 7
[assign] #13725 axiom
[assign] #9101 clause 1479 -2163
[assign] #9103 bin 1479
[eq-expl] #8605 root
[new-match] 3197896545 #2862 #2861 #8605 ; #8606
[mk-app] #13726 str%from_strlit #8606
[mk-app] #13727 = #13726 #8605
[mk-app] #13728 or #13719 #13727
[instance] 3197896545 ; 1
[attach-enode] #13726 1
[attach-enode] #13727 1
[assign] #13727 justification -1: 679
[end-of-instance]
[decide-and-or] #9113 #9112
[push] 6
[assign] (not #9108) decision axiom
[eq-expl] #964 root
[new-match] 4217430147 #28 #27 #964 ; #9108
[mk-app] #13729 = #9108 #9107
[mk-app] #13730 or #13602 #13729
[instance] 4217430147 ; 1
[assign] (not #13729) justification -1: 1481 -1482
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13729
[conflict] #13729
[pop] 6 7
[assign] #13598 axiom
[assign] #13685 axiom
[assign] #13686 axiom
[assign] #13687 axiom
[assign] #13688 axiom
[assign] #13689 axiom
[assign] #13690 axiom
[assign] #13691 axiom
[assign] #13692 axiom
[assign] #13693 axiom
[assign] #13694 axiom
[assign] #13695 axiom
[assign] #13696 axiom
[assign] #13697 axiom
[assign] #13698 axiom
[assign] #13699 axiom
[assign] #13700 axiom
[assign] #13701 axiom
[assign] #13702 axiom
[assign] #13703 axiom
[assign] #13704 axiom
[assign] #13705 axiom
[assign] #13706 axiom
[assign] #13710 axiom
[assign] #13711 axiom
[assign] #13712 axiom
[assign] #13713 axiom
[assign] #13714 axiom
[assign] #13715 axiom
[assign] #13716 axiom
[assign] #13721 axiom
[assign] #13725 axiom
[assign] #13729 axiom
[assign] #8131 clause 1370 -2121
[assign] #8140 clause 1373 -2122
[assign] #8149 clause 1376 -2123
[assign] #8163 clause 1379 -2124
[assign] #8172 clause 1382 -2125
[assign] #8181 clause 1385 -2126
[assign] #8195 clause 1388 -2127
[assign] #8206 clause 1391 -2128
[assign] #8217 clause 1394 -2129
[assign] #8231 clause 1397 -2130
[assign] #8245 clause 1400 -2131
[assign] #8256 clause 1403 -2132
[assign] #8268 clause 1406 -2133
[assign] #8282 clause 1409 -2134
[assign] #8296 clause 1412 -2135
[assign] #8349 clause 1417 -2136
[assign] #8451 clause 1422 -2137
[assign] #8493 clause 1425 -2138
[assign] #8551 clause 1430 -2139
[assign] #8579 clause 1435 -2140
[assign] #8592 clause 1438 -2141
[assign] #8687 clause 1441 -2142
[assign] #8712 clause 1445 -2143
[assign] #8939 clause 1453 -2144
[assign] #8999 clause 1458 -2145
[assign] #9028 clause 1461 -2146
[assign] #9047 clause 1464 -2147
[assign] #9056 clause 1467 -2148
[assign] #9069 clause 1470 -2149
[assign] #9087 clause 1473 -2150
[assign] #9094 clause 1476 -2151
[assign] #9101 clause 1479 -2152
[assign] #9108 clause 1482 -2153
[assign] #8135 bin 1370
[assign] #8144 bin 1373
[assign] #8159 bin 1376
[assign] #8167 bin 1379
[assign] #8176 bin 1382
[assign] #8191 bin 1385
[assign] #8201 bin 1388
[assign] #8212 bin 1391
[assign] #8227 bin 1394
[assign] #8241 bin 1397
[assign] #8251 bin 1400
[assign] #8263 bin 1403
[assign] #8278 bin 1406
[assign] #8292 bin 1409
[assign] #12713 bin 1412
[assign] #12724 bin 1417
[assign] #12735 bin 1422
[assign] #8480 bin 1425
[assign] #11086 bin 1430
[assign] #8587 bin 1435
[assign] #8683 bin 1438
[assign] #8698 bin 1441
[assign] #12748 bin 1445
[assign] #12782 bin 1453
[assign] #12795 bin 1458
[assign] #9043 bin 1461
[assign] #9051 bin 1464
[assign] #9064 bin 1467
[assign] #9083 bin 1470
[assign] #9089 bin 1473
[assign] #9096 bin 1476
[assign] #9103 bin 1479
[assign] #9110 bin 1482
[new-match] 419580993 #2862 #2861 #8599 ; #8600
[new-match] 9436611 #2862 #2861 #8594 ; #8595
[new-match] 3197896545 #2862 #2861 #8605 ; #8606
[eq-expl] #8611 root
[new-match] 1493459105 #2862 #2861 #8611 ; #8612
[mk-app] #13603 not #2862
[mk-app] #13602 or #13603 #13718
[instance] 419580993 ; 1
[attach-enode] #13717 1
[attach-enode] #13718 1
[assign] #13718 justification -1: 679
[end-of-instance]
[mk-app] #13730 or #13603 #13723
[instance] 9436611 ; 1
[attach-enode] #13722 1
[attach-enode] #13723 1
[assign] #13723 justification -1: 679
[end-of-instance]
[mk-app] #13719 or #13603 #13727
[instance] 3197896545 ; 1
[attach-enode] #13726 1
[attach-enode] #13727 1
[assign] #13727 justification -1: 679
[end-of-instance]
[mk-app] #13728 str%from_strlit #8612
[mk-app] #13724 = #13728 #8611
[mk-app] #13720 or #13603 #13724
[instance] 1493459105 ; 1
[attach-enode] #13728 1
[attach-enode] #13724 1
[assign] #13724 justification -1: 679
[end-of-instance]
[push] 1
[assign] (not #6752) decision axiom
[assign] (not #6769) bin -1188
[assign] #12393 clause 1187 1188 1189
[new-match] 3612831808 #28 #27 #924 ; #6769
[mk-app] #13709 not #28
[mk-app] #13614 or #13709 #13597
[instance] 3612831808 ; 1
[attach-enode] #13596 1
[assign] #13597 justification -1: 2
[end-of-instance]
[assign] (not #13596) clause -2158 -2159
[decide-and-or] #12393 #12389
[push] 2
[assign] (not #6758) decision axiom
[new-match] 1640759853 #169 #168 #6750 ; #6751
[attach-meaning] #363 arith (- 1)
[mk-app] #13617 * #363 #13600
[mk-app] #13684 Int
[attach-meaning] #13684 arith (- 10)
[mk-app] #13599 = #13600 #6750
[inst-discovered] theory-solving 0x0 arith# ; #13601
[mk-app] #13617 = #13601 #13599
[instance] 0x0 #13617
[attach-enode] #13617 0
[end-of-instance]
[mk-app] #13617 not #169
[mk-app] #13684 or #13617 #13599
[instance] 1640759853 ; 1
[attach-enode] #13600 1
[attach-enode] #13599 1
[assign] #13599 justification -1: 25
[end-of-instance]
[decide-and-or] #12483 #7154
[push] 3
[assign] (not #7105) decision axiom
[new-match] 92221517 #28 #27 #941 ; #7105
[mk-app] #13635 or #13709 #13613
[instance] 92221517 ; 1
[attach-enode] #13612 1
[assign] #13613 justification -1: 2
[end-of-instance]
[assign] (not #13612) clause -2161 -2162
[decide-and-or] #7187 #7186
[push] 4
[assign] (not #7171) decision axiom
[new-match] 3838105047 #28 #27 #942 ; #7171
[mk-app] #13731 or #13709 #13616
[instance] 3838105047 ; 1
[attach-enode] #13615 1
[assign] #13616 justification -1: 2
[end-of-instance]
[assign] (not #13615) clause -2163 -2164
[decide-and-or] #12750 #8936
[push] 5
[assign] (not #8905) decision axiom
[new-match] 2002288480 #28 #27 #953 ; #8905
[mk-app] #13732 or #13709 #13708
[instance] 2002288480 ; 1
[attach-enode] #13707 1
[assign] #13708 justification -1: 2
[end-of-instance]
[assign] (not #13707) clause -2165 -2166
[decide-and-or] #9120 #9119
[push] 6
[assign] (not #9115) decision axiom
[eq-expl] #965 root
[new-match] 2446908302 #28 #27 #965 ; #9115
[mk-app] #13733 = #9115 #9114
[mk-app] #13734 or #13709 #13733
[instance] 2446908302 ; 1
[assign] (not #13733) justification -1: 1484 -1485
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13733
[conflict] #13733
[pop] 1 7
[assign] #13733 axiom
[assign] #9115 clause 1485 -2167
[assign] #9117 bin 1485
[eq-expl] #8617 root
[new-match] 3211196192 #2862 #2861 #8617 ; #8618
[mk-app] #13734 str%from_strlit #8618
[mk-app] #13735 = #13734 #8617
[mk-app] #13736 or #13603 #13735
[instance] 3211196192 ; 1
[attach-enode] #13734 1
[attach-enode] #13735 1
[assign] #13735 justification -1: 679
[end-of-instance]
[decide-and-or] #9127 #9126
[push] 6
[assign] (not #9122) decision axiom
[eq-expl] #966 root
[new-match] 1460754472 #28 #27 #966 ; #9122
[mk-app] #13737 = #9122 #9121
[mk-app] #13738 or #13709 #13737
[instance] 1460754472 ; 1
[assign] (not #13737) justification -1: 1487 -1488
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13737
[conflict] #13737
[pop] 1 7
[assign] #13737 axiom
[assign] #9122 clause 1488 -2169
[assign] #9124 bin 1488
[eq-expl] #8623 root
[new-match] 1673131370 #2862 #2861 #8623 ; #8624
[mk-app] #13738 str%from_strlit #8624
[mk-app] #13739 = #13738 #8623
[mk-app] #13740 or #13603 #13739
[instance] 1673131370 ; 1
[attach-enode] #13738 1
[attach-enode] #13739 1
[assign] #13739 justification -1: 679
[end-of-instance]
[decide-and-or] #9134 #9133
[push] 6
[assign] (not #9129) decision axiom
[eq-expl] #967 root
[new-match] 2468074166 #28 #27 #967 ; #9129
[mk-app] #13741 = #9129 #9128
[mk-app] #13742 or #13709 #13741
[instance] 2468074166 ; 1
[assign] (not #13741) justification -1: 1490 -1491
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13741
[conflict] #13741
[pop] 1 7
[assign] #13741 axiom
[assign] #9129 clause 1491 -2171
[assign] #9131 bin 1491
[eq-expl] #8629 root
[new-match] 3020456188 #2862 #2861 #8629 ; #8630
[mk-app] #13742 str%from_strlit #8630
[mk-app] #13743 = #13742 #8629
[mk-app] #13744 or #13603 #13743
[instance] 3020456188 ; 1
[attach-enode] #13742 1
[attach-enode] #13743 1
[assign] #13743 justification -1: 679
[end-of-instance]
[decide-and-or] #9141 #9140
[push] 6
[assign] (not #9136) decision axiom
[eq-expl] #968 root
[new-match] 2114906832 #28 #27 #968 ; #9136
[mk-app] #13745 = #9136 #9135
[mk-app] #13746 or #13709 #13745
[instance] 2114906832 ; 1
[assign] (not #13745) justification -1: 1493 -1494
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13745
[conflict] #13745
[pop] 1 7
[assign] #13745 axiom
[assign] #9136 clause 1494 -2173
[assign] #9138 bin 1494
[eq-expl] #8635 root
[new-match] 3973248946 #2862 #2861 #8635 ; #8636
[mk-app] #13746 str%from_strlit #8636
[mk-app] #13747 = #13746 #8635
[mk-app] #13748 or #13603 #13747
[instance] 3973248946 ; 1
[attach-enode] #13746 1
[attach-enode] #13747 1
[assign] #13747 justification -1: 679
[end-of-instance]
[decide-and-or] #9148 #9147
[push] 6
[assign] (not #9143) decision axiom
[eq-expl] #969 root
[new-match] 2027815466 #28 #27 #969 ; #9143
[mk-app] #13749 = #9143 #9142
[mk-app] #13750 or #13709 #13749
[instance] 2027815466 ; 1
[assign] (not #13749) justification -1: 1496 -1497
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13749
[conflict] #13749
[pop] 1 7
[assign] #13749 axiom
[assign] #9143 clause 1497 -2175
[assign] #9145 bin 1497
[eq-expl] #8641 root
[new-match] 437125188 #2862 #2861 #8641 ; #8642
[mk-app] #13750 str%from_strlit #8642
[mk-app] #13751 = #13750 #8641
[mk-app] #13752 or #13603 #13751
[instance] 437125188 ; 1
[attach-enode] #13750 1
[attach-enode] #13751 1
[assign] #13751 justification -1: 679
[end-of-instance]
[decide-and-or] #9155 #9154
[push] 6
[assign] (not #9150) decision axiom
[eq-expl] #970 root
[new-match] 448816619 #28 #27 #970 ; #9150
[mk-app] #13753 = #9150 #9149
[mk-app] #13754 or #13709 #13753
[instance] 448816619 ; 1
[assign] (not #13753) justification -1: 1499 -1500
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13753
[conflict] #13753
[pop] 1 7
[assign] #13753 axiom
[assign] #9150 clause 1500 -2177
[assign] #9152 bin 1500
[eq-expl] #8647 root
[new-match] 2760103317 #2862 #2861 #8647 ; #8648
[mk-app] #13754 str%from_strlit #8648
[mk-app] #13755 = #13754 #8647
[mk-app] #13756 or #13603 #13755
[instance] 2760103317 ; 1
[attach-enode] #13754 1
[attach-enode] #13755 1
[assign] #13755 justification -1: 679
[end-of-instance]
[decide-and-or] #9162 #9161
[push] 6
[assign] (not #9157) decision axiom
[eq-expl] #971 root
[new-match] 3759354920 #28 #27 #971 ; #9157
[mk-app] #13757 = #9157 #9156
[mk-app] #13758 or #13709 #13757
[instance] 3759354920 ; 1
[assign] (not #13757) justification -1: 1502 -1503
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13757
[conflict] #13757
[pop] 1 7
[assign] #13757 axiom
[assign] #9157 clause 1503 -2179
[assign] #9159 bin 1503
[eq-expl] #8653 root
[new-match] 3270381655 #2862 #2861 #8653 ; #8654
[mk-app] #13758 str%from_strlit #8654
[mk-app] #13759 = #13758 #8653
[mk-app] #13760 or #13603 #13759
[instance] 3270381655 ; 1
[attach-enode] #13758 1
[attach-enode] #13759 1
[assign] #13759 justification -1: 679
[end-of-instance]
[decide-and-or] #9169 #9168
[push] 6
[assign] (not #9164) decision axiom
[eq-expl] #972 root
[new-match] 2873762033 #28 #27 #972 ; #9164
[mk-app] #13761 = #9164 #9163
[mk-app] #13762 or #13709 #13761
[instance] 2873762033 ; 1
[assign] (not #13761) justification -1: 1505 -1506
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13761
[conflict] #13761
[pop] 1 7
[assign] #13761 axiom
[assign] #9164 clause 1506 -2181
[assign] #9166 bin 1506
[eq-expl] #8659 root
[new-match] 2717061180 #2862 #2861 #8659 ; #8660
[mk-app] #13762 str%from_strlit #8660
[mk-app] #13763 = #13762 #8659
[mk-app] #13764 or #13603 #13763
[instance] 2717061180 ; 1
[attach-enode] #13762 1
[attach-enode] #13763 1
[assign] #13763 justification -1: 679
[end-of-instance]
[decide-and-or] #9176 #9175
[push] 6
[assign] (not #9171) decision axiom
[eq-expl] #973 root
[new-match] 3560658061 #28 #27 #973 ; #9171
[mk-app] #13765 = #9171 #9170
[mk-app] #13766 or #13709 #13765
[instance] 3560658061 ; 1
[assign] (not #13765) justification -1: 1508 -1509
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13765
[conflict] #13765
[pop] 1 7
[assign] #13765 axiom
[assign] #9171 clause 1509 -2183
[assign] #9173 bin 1509
[eq-expl] #8665 root
[new-match] 746003424 #2862 #2861 #8665 ; #8666
[mk-app] #13766 str%from_strlit #8666
[mk-app] #13767 = #13766 #8665
[mk-app] #13768 or #13603 #13767
[instance] 746003424 ; 1
[attach-enode] #13766 1
[attach-enode] #13767 1
[assign] #13767 justification -1: 679
[end-of-instance]
[decide-and-or] #9183 #9182
[push] 6
[assign] (not #9178) decision axiom
[eq-expl] #974 root
[new-match] 629499416 #28 #27 #974 ; #9178
[mk-app] #13769 = #9178 #9177
[mk-app] #13770 or #13709 #13769
[instance] 629499416 ; 1
[assign] (not #13769) justification -1: 1511 -1512
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13769
[conflict] #13769
[pop] 1 7
[assign] #13769 axiom
[assign] #9178 clause 1512 -2185
[assign] #9180 bin 1512
[eq-expl] #8671 root
[new-match] 3928515780 #2862 #2861 #8671 ; #8672
[mk-app] #13770 str%from_strlit #8672
[mk-app] #13771 = #13770 #8671
[mk-app] #13772 or #13603 #13771
[instance] 3928515780 ; 1
[attach-enode] #13770 1
[attach-enode] #13771 1
[assign] #13771 justification -1: 679
[end-of-instance]
[decide-and-or] #9388 #9387
[push] 6
[assign] (not #9185) decision axiom
[eq-expl] #975 root
[new-match] 387926023 #28 #27 #975 ; #9185
[mk-app] #13773 = #9185 #9184
[mk-app] #13774 or #13709 #13773
[instance] 387926023 ; 1
[assign] (not #13773) justification -1: 1514 -1515
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13773
[conflict] #13773
[pop] 1 7
[assign] #13773 axiom
[assign] #9185 clause 1515 -2187
[assign] #9386 bin 1515
[decide-and-or] #12805 #9418
[push] 6
[assign] (not #9390) decision axiom
[eq-expl] #976 root
[new-match] 3005697831 #28 #27 #976 ; #9390
[mk-app] #13774 = #9390 #9389
[mk-app] #13775 or #13709 #13774
[instance] 3005697831 ; 1
[assign] (not #13774) justification -1: 1517 -1518
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13774
[conflict] #13774
[pop] 1 7
[assign] #13774 axiom
[assign] #9390 clause 1518 -2188
[assign] #12802 bin 1518
[decide-and-or] #12821 #9452
[push] 6
[assign] (not #9421) decision axiom
[eq-expl] #977 root
[new-match] 1551776772 #28 #27 #977 ; #9421
[mk-app] #13775 = #9421 #9420
[mk-app] #13776 or #13709 #13775
[instance] 1551776772 ; 1
[assign] (not #13775) justification -1: 1520 -1521
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13775
[conflict] #13775
[pop] 1 7
[assign] #13775 axiom
[assign] #9421 clause 1521 -2189
[assign] #12820 bin 1521
[decide-and-or] #12830 #9485
[push] 6
[assign] (not #9454) decision axiom
[eq-expl] #978 root
[new-match] 2249943340 #28 #27 #978 ; #9454
[mk-app] #13776 fuel_bool_default #978
[mk-app] #13777 = #9454 #13776
[mk-app] #13778 or #13709 #13777
[instance] 2249943340 ; 1
[attach-enode] #13776 1
[assign] #13777 justification -1: 2
[end-of-instance]
[assign] (not #13776) clause -2190 -2191
[decide-and-or] #9493 #9492
[push] 7
[assign] (not #9488) decision axiom
[eq-expl] #979 root
[new-match] 2648125493 #28 #27 #979 ; #9488
[mk-app] #13779 = #9488 #9487
[mk-app] #13780 or #13709 #13779
[instance] 2648125493 ; 1
[assign] (not #13779) justification -1: 1525 -1526
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13779
[conflict] #13779
[pop] 1 8
[assign] #13779 axiom
[assign] #9488 clause 1526 -2192
[assign] #9490 bin 1526
[mk-app] #13780 <= #9489 #7071
[mk-app] #13781 >= #9489 #7071
[assign] #13780 justification -1: 1527
[assign] #13781 justification -1: 1527
[assign] (not #4410) clause -1777 -2193
[assign] #4425 clause 1775 -2193
[assign] #4426 clause 1774 -2194
[assign] #4412 bin -1777
[assign] #4397 bin -1777
[assign] (not #4163) clause -1776 -1774 -1775
[decide-and-or] #4364 #4369
[push] 7
[assign] (not #4366) decision axiom
[push] 8
[assign] (not #10999) decision axiom
[assign] #13247 clause 1838 1836
[assign] #13249 clause 1843 1836
[assign] #13452 clause 1968 -1841 -1840
[eq-expl] #3873 root
[eq-expl] #289 root
[new-match] 1516426634 #550 #548 #289 #3873 ; #3838
[eq-expl] #3839 root
[eq-expl] #8402 root
[new-match] 21078801 #12724 #8368 #8402 #3839 #3903 ; #3831
[eq-expl] #8401 root
[new-match] 369883630 #2106 #2105 #8401 ; #8402
[eq-expl] #3838 root
[new-match] 1719175530 #169 #168 #3838 ; #3839
[mk-app] #13782 * #363 #3838
[mk-app] #13783 + #289 #3873 #13782
[mk-app] #13784 = #13783 #334
[mk-app] #13785 + #289 #13782 #3873
[inst-discovered] theory-solving 0x0 arith# ; #13783
[mk-app] #13786 = #13783 #13785
[instance] 0x0 #13786
[attach-enode] #13786 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #13786 + #13782 #3873
[attach-meaning] #363 arith (- 1)
[mk-app] #13787 + #3838 #529
[mk-app] #13786 = #13787 #289
[mk-app] #13788 = #13785 #334
[inst-discovered] theory-solving 0x0 arith# ; #13788
[mk-app] #13789 = #13788 #13786
[instance] 0x0 #13789
[attach-enode] #13789 0
[end-of-instance]
[mk-app] #13785 not #550
[mk-app] #13788 or #13785 #13786
[instance] 1516426634 ; 1
[attach-enode] #13787 1
[attach-enode] #13786 1
[mk-app] #13789 <= #13787 #289
[mk-app] #13790 >= #13787 #289
[assign] #13786 justification -1: 76
[end-of-instance]
[mk-app] #13791 has_type #3839 #184
[mk-app] #13792 not #13791
[mk-app] #13793 has_type #8402 #2107
[mk-app] #13794 not #13793
[mk-app] #13795 u_tokenizer!lex.rec%scan.? #3903 #3839 #8402 #8364
[mk-app] #13796 = #3831 #13795
[mk-app] #13797 or #13643 #13792 #13794 #13796
[inst-discovered] theory-solving 0x0 basic# ; #13797
[mk-app] #13798 = #13797 #13797
[instance] 0x0 #13798
[attach-enode] #13798 0
[end-of-instance]
[mk-app] #13798 not #12724
[mk-app] #13799 or #13798 #13643 #13792 #13794 #13796
[instance] 21078801 ; 1
[attach-enode] #13791 1
[attach-enode] #13793 1
[attach-enode] #8363 1
[attach-enode] #8364 1
[attach-enode] #13795 1
[attach-enode] #13796 1
[end-of-instance]
[mk-app] #13800 %Poly%u_tokenizer!lex.Class. #8402
[mk-app] #13801 = #8401 #13800
[mk-app] #13802 not #2106
[mk-app] #13803 or #13802 #13801
[instance] 369883630 ; 1
[attach-enode] #13800 1
[mk-app] #13804 is #13800
[attach-enode] #13804 1
[attach-enode] #13801 1
[assign] #13801 justification -1: 561
[end-of-instance]
[mk-app] #13805 %I #3839
[mk-app] #13806 = #3838 #13805
[mk-app] #13807 or #13617 #13806
[instance] 1719175530 ; 1
[attach-enode] #13805 1
[attach-enode] #13806 1
[assign] #13806 justification -1: 25
[end-of-instance]
[assign] #13789 clause 2196 -2195
[assign] #13790 clause 2197 -2195
[attach-meaning] #363 arith (- 1)
[mk-app] #13808 + #1783 #13782
[mk-app] #13809 <= #13808 #334
[mk-app] #13810 >= #13808 #334
[attach-enode] #13782 0
[attach-enode] #13808 0
[assign] #13809 justification -1: 1843
[assign] #13810 justification -1: 1843
[decide-and-or] #13229 #3711
[push] 9
[assign] #3711 decision axiom
[eq-expl] #3922 lit #13436 ; #13435
[eq-expl] #13435 root
[eq-expl] #3719 root
[new-match] 826179143 #12520 #7315 #3719 #3922 ; #3711
[mk-app] #13811 has_type #3704 #7290
[mk-app] #13812 not #13811
[mk-app] #13813 Poly%u_tokenizer!lex.CIter. #13435
[mk-app] #13814 u_tokenizer!lex.impl&%1.at.? #13813
[mk-app] #13815 u_tokenizer!lex.impl&%1.text.? #13813
[mk-app] #13816 Poly%vstd!seq.Seq<char.>. #13815
[mk-app] #13817 vstd!seq.Seq.len.? #120 #244 #13816
[mk-app] #13818 * #363 #13817
[mk-app] #13819 + #13814 #13818
[mk-app] #13820 >= #13819 #334
[mk-app] #13821 tuple%2./tuple%2/0 #3697
[mk-app] #13822 %I #13821
[mk-app] #13823 I #13814
[mk-app] #13824 u_tokenizer!text.bpos.? #13816 #13823
[mk-app] #13825 = #13822 #13824
[mk-app] #13826 not #13825
[mk-app] #13827 vstd!seq.Seq.index.? #120 #244 #13816 #13823
[mk-app] #13828 = #3683 #13827
[mk-app] #13829 not #13828
[mk-app] #13830 or #657 #13826 #13829
[mk-app] #13831 not #13830
[mk-app] #13832 or #13820 #13831
[mk-app] #13833 not #13832
[mk-app] #13834 not #13820
[mk-app] #13835 is #3719
[mk-app] #13836 or #13834 #13835
[mk-app] #13837 not #13836
[mk-app] #13838 or #13812 #13833 #13837
[mk-app] #13839 ens%u_tokenizer!lex.impl&%1.peek. #13435 #3719
[mk-app] #13840 = #13838 #13839
[mk-app] #13841 not #13840
[inst-discovered] theory-solving 0x0 basic# ; #13832
[mk-app] #13842 = #13832 #13832
[instance] 0x0 #13842
[attach-enode] #13842 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13836
[mk-app] #13842 = #13836 #13836
[instance] 0x0 #13842
[attach-enode] #13842 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13838
[mk-app] #13842 = #13838 #13838
[instance] 0x0 #13842
[attach-enode] #13842 0
[end-of-instance]
[mk-app] #13842 not #13838
[inst-discovered] theory-solving 0x0 basic# ; #13841
[mk-app] #13842 = #13841 #13841
[instance] 0x0 #13842
[attach-enode] #13842 0
[end-of-instance]
[mk-app] #13842 not #12520
[mk-app] #13843 or #13842 #13841
[instance] 826179143 ; 1
[attach-enode] #7290 1
[attach-enode] #13811 1
[attach-enode] #13813 1
[attach-enode] #13814 1
[attach-enode] #13815 1
[attach-enode] #13816 1
[attach-enode] #13817 1
[attach-enode] #13818 1
[attach-enode] #13819 1
[attach-enode] #13821 1
[attach-enode] #13822 1
[attach-enode] #13823 1
[attach-enode] #13824 1
[attach-enode] #13825 1
[attach-enode] #13827 1
[attach-enode] #13828 1
[attach-enode] #13835 1
[attach-enode] #13839 1
[assign] (not #13840) justification -1: 1238
[end-of-instance]
[assign] #13839 justification -1: 1848 1961
[mk-app] #13844 = #3764 #13814
[attach-meaning] #363 arith (- 1)
[mk-app] #13845 * #363 #13814
[mk-app] #13846 + #3764 #13845
[mk-app] #13847 <= #13846 #334
[mk-app] #13848 >= #13846 #334
[assign] #13844 justification -1: 1961
[attach-enode] #13844 0
[attach-enode] #13845 0
[attach-enode] #13846 0
[assign] #13847 justification -1: 2217
[assign] #13848 justification -1: 2217
[mk-app] #13849 = #3865 #13817
[attach-meaning] #363 arith (- 1)
[mk-app] #13850 + #3865 #13818
[mk-app] #13851 <= #13850 #334
[mk-app] #13852 >= #13850 #334
[assign] #13849 justification -1: 1965 1966 1962 1961
[attach-enode] #13849 0
[attach-enode] #13850 0
[assign] #13851 justification -1: 2220
[assign] #13852 justification -1: 2220
[assign] (not #13838) clause -2214 -2215 2216
[assign] #13811 clause 2206 2214
[assign] #13832 clause 2211 2214
[assign] #13836 clause 2213 2214
[eq-expl] #7289 root
[eq-expl] #3704 root
[eq-expl] #7290 root
[new-match] 3204777225 #1713 #1709 #3704 #7229 #7289 ; #13811 (#7290 #7290)
[new-match] 1678831805 #1702 #1701 #3719 ; #3704
[mk-app] #13853 Poly%core!option.Option. #3705
[mk-app] #13854 = #3704 #13853
[mk-app] #13855 or #13812 #13854
[mk-app] #13856 or #4783 #13812 #13854
[instance] 3204777225 ; 2
[attach-enode] #13853 2
[attach-enode] #13854 2
[assign] #13854 justification -1: 513 2206
[end-of-instance]
[mk-app] #13857 = #3719 #3705
[mk-app] #13858 or #13330 #13857
[instance] 1678831805 ; 1
[attach-enode] #13857 1
[assign] #13857 justification -1: 512
[end-of-instance]
[eq-expl] #3705 root
[new-match] 3267619848 #1702 #1701 #3705 ; #13853
[push] 10
[assign] #13255 decision axiom
[mk-app] #13859 = #3653 #8759
[mk-app] #13860 => #13255 #13859
[inst-discovered] theory-solving 0x0 datatype# ; #3653
[instance] 0 #13860
[end-of-instance]
[attach-enode] #8759 0
[push] 11
[assign] #13256 decision axiom
[mk-app] #13859 = #3587 #8759
[mk-app] #13860 => #13256 #13859
[inst-discovered] theory-solving 0x0 datatype# ; #3587
[instance] 0 #13860
[end-of-instance]
[push] 12
[assign] (not #3364) decision axiom
[assign] (not #13257) clause -1886 1885
[assign] (not #13820) clause -2207 1886 -1846 -2219 -2221
[assign] (not #13830) clause -2210 2207 -2211
[assign] #1160 clause 1851 2210
[assign] #13825 clause 2208 2210
[assign] #13828 clause 2209 2210
[assign] #347 clause 1897 -1851
[mk-app] #13859 core!option.Option./Some/?0 #3719
[mk-app] #13860 core!option.Option./Some #13859
[mk-app] #13861 = #3719 #13860
[mk-app] #13862 => #1160 #13861
[inst-discovered] theory-solving 0x0 datatype# ; #3719
[instance] 0 #13862
[end-of-instance]
[attach-enode] #13859 0
[attach-enode] #13860 0
[mk-app] #13861 core!option.Option./Some/?0 #13860
[mk-app] #13862 = #13859 #13861
[new-match] 0 datatype#15 datatype#12 #13859 ; #13860
[instance] 0 #13862
[attach-enode] #13861 0
[end-of-instance]
[eq-expl] #13813 cg (#13435 #3922) ; #3923
[eq-expl] #13815 cg (#13813 #3923) ; #3911
[eq-expl] #3911 lit #13448 ; #13447
[eq-expl] #13447 cg (#3912 #3903) ; #13443
[eq-expl] #13443 root
[eq-expl] #3902 lit #13444 ; #13443
[eq-expl] #13816 cg (#13815 #3902) ; #3903
[eq-expl] #13823 root
[new-match] 1755287860 #11858 #3908 #13823 #13816 #244 #120 ; #13827
[eq-expl] #3697 ax ; #13252
[eq-expl] #13252 root
[new-match] 2571206668 #2775 #2774 #3697 ; #3683
[new-match] 472461204 #6732 #6731 #13823 #13816 ; #13824
[eq-expl] #13814 cg (#13813 #3923) ; #3764
[new-match] 2199899837 #169 #168 #13814 ; #13823
[new-match] 1095615642 #2763 #2762 #3697 ; #13821
[new-match] 674221547 #1739 #1734 #3705 #7229 #7289 ; #3696
[eq-expl] #3704 lit #13854 ; #13853
[eq-expl] #13853 root
[new-match] 605875641 #1746 #1743 #3704 #7229 #7289 ; #3696 (#3705 #3705) #7290 (#7289 #7289) (#7229 #7229) #13811 (#3704 #13853) (#7290 #7290)
[eq-expl] #13859 ax ; #13861
[eq-expl] #13861 root
[eq-expl] #13860 unknown ; #3719
[eq-expl] #3719 lit #13857 ; #3705
[new-match] 1793823357 #1728 #1724 #13859 #7229 #7289 ; #13811 (#3704 #13853) (#7290 #7290) (#3705 #13860)
[mk-app] #13862 has_type #13823 #184
[mk-app] #13863 not #13862
[mk-app] #13864 vstd!seq.Seq.index.? #120 #244 #3903 #13823
[mk-app] #13865 has_type #13864 #244
[mk-app] #13866 or #13451 #13863 #13865
[mk-app] #13867 not #11858
[mk-app] #13868 or #13867 #13451 #13863 #13865
[instance] 1755287860 ; 2
[attach-enode] #13862 2
[attach-enode] #13864 2
[attach-enode] #13865 2
[end-of-instance]
[mk-app] #13869 tuple%2./tuple%2/1 #13252
[mk-app] #13870 = #13869 #13254
[inst-discovered] theory-solving 0x0 datatype# ; #13254
[mk-app] #13871 = #13254 #13251
[instance] 0x0 #13871
[attach-enode] #13871 0
[end-of-instance]
[mk-app] #13871 = #13869 #13251
[mk-app] #13872 not #2775
[mk-app] #13873 or #13872 #13871
[instance] 2571206668 ; 1
[attach-enode] #13869 1
[attach-enode] #13871 1
[assign] #13871 justification -1: 670
[end-of-instance]
[mk-app] #13874 u_tokenizer!text.bpos.? #3903 #13823
[mk-app] #13875 vstd!seq.Seq.subrange.? #120 #244 #3903 #5644 #13823
[mk-app] #13876 u_tokenizer!text.blen.? #13875
[mk-app] #13877 = #13874 #13876
[mk-app] #13878 not #6732
[mk-app] #13879 or #13878 #13877
[instance] 472461204 ; 2
[attach-enode] #13874 2
[attach-enode] #5644 2
[attach-enode] #13875 2
[attach-enode] #13876 2
[attach-enode] #13877 2
[assign] #13877 justification -1: 1180
[end-of-instance]
[mk-app] #13880 I #3764
[mk-app] #13881 %I #13880
[mk-app] #13882 = #3764 #13881
[mk-app] #13883 or #13617 #13882
[instance] 2199899837 ; 2
[attach-enode] #13880 2
[attach-enode] #13881 2
[attach-enode] #13882 2
[assign] #13882 justification -1: 25
[end-of-instance]
[mk-app] #13884 tuple%2./tuple%2/0 #13252
[mk-app] #13885 = #13884 #13253
[inst-discovered] theory-solving 0x0 datatype# ; #13253
[mk-app] #13886 = #13253 #13250
[instance] 0x0 #13886
[attach-enode] #13886 0
[end-of-instance]
[mk-app] #13886 = #13884 #13250
[mk-app] #13887 not #2763
[mk-app] #13888 or #13887 #13886
[instance] 1095615642 ; 2
[attach-enode] #13884 2
[attach-enode] #13886 2
[assign] #13886 justification -1: 668
[end-of-instance]
[mk-app] #13889 is #3705
[mk-app] #13890 not #13889
[mk-app] #13891 core!option.Option./Some/?0 #3705
[mk-app] #13892 = #3696 #13891
[mk-app] #13893 or #13890 #13892
[mk-app] #13894 not #1739
[mk-app] #13895 or #13894 #13890 #13892
[instance] 674221547 ; 1
[attach-enode] #13889 1
[attach-enode] #13891 1
[attach-enode] #13892 1
[end-of-instance]
[mk-app] #13896 has_type #13853 #7290
[mk-app] #13897 not #13896
[mk-app] #13898 %Poly%core!option.Option. #13853
[mk-app] #13899 core!option.Option./Some/0 #7289 #7229 #13898
[mk-app] #13900 has_type #13899 #7229
[mk-app] #13901 or #13897 #13900
[mk-app] #13902 not #1746
[mk-app] #13903 or #13902 #13897 #13900
[instance] 605875641 ; 2
[attach-enode] #13896 2
[attach-enode] #13898 2
[attach-enode] #13899 2
[attach-enode] #13900 2
[end-of-instance]
[assign] #13889 justification -1: 1851 2224
[assign] #13896 justification -1: 2206 2223
[eq-expl] #13875 root
[new-match] 1656893398 #11029 #6617 #13875 ; #13876
[eq-expl] #5644 root
[new-match] 3678045300 #11876 #3981 #13823 #5644 #3903 #244 #120 ; #13875
[eq-expl] #334 root
[new-match] 3774712549 #169 #168 #334 ; #5644
[mk-app] #13904 has_type #13875 #3200
[mk-app] #13905 not #13904
[mk-app] #13906 u_tokenizer!text.rec%blen.? #13875 #6613
[mk-app] #13907 = #13876 #13906
[mk-app] #13908 or #13905 #13907
[mk-app] #13909 or #13649 #13905 #13907
[instance] 1656893398 ; 3
[attach-enode] #13904 3
[attach-enode] #13906 3
[attach-enode] #13907 3
[end-of-instance]
[mk-app] #13910 has_type #5644 #184
[mk-app] #13911 not #13910
[mk-app] #13912 has_type #13875 #1463
[mk-app] #13913 or #13451 #13911 #13863 #13912
[inst-discovered] theory-solving 0x0 basic# ; #13913
[mk-app] #13914 = #13913 #13913
[instance] 0x0 #13914
[attach-enode] #13914 0
[end-of-instance]
[mk-app] #13914 not #11876
[mk-app] #13915 or #13914 #13451 #13911 #13863 #13912
[instance] 3678045300 ; 3
[attach-enode] #13910 3
[attach-enode] #13912 3
[end-of-instance]
[mk-app] #13916 %I #5644
[mk-app] #13917 = #334 #13916
[attach-meaning] #363 arith (- 1)
[mk-app] #13918 * #363 #13916
[mk-app] #13919 = #13916 #334
[inst-discovered] theory-solving 0x0 arith# ; #13917
[mk-app] #13918 = #13917 #13919
[instance] 0x0 #13918
[attach-enode] #13918 0
[end-of-instance]
[mk-app] #13918 or #13617 #13919
[instance] 3774712549 ; 3
[attach-enode] #13916 3
[attach-enode] #13919 3
[assign] #13919 justification -1: 25
[end-of-instance]
[assign] #13892 clause 2232 -2231
[assign] #13900 clause 2234 -2233
[eq-expl] #13898 cg (#13853 #3704) ; #3705
[eq-expl] #13899 cg (#7289 #7289) (#7229 #7229) (#13898 #3705) ; #3696
[eq-expl] #3696 lit #13892 ; #13891
[eq-expl] #13891 cg (#3705 #3719) ; #13859
[new-match] 1530893160 #2782 #2779 #13899 #244 #120 #203 #120 ; #13900 (#7229 #7229) #3697 (#3696 #13861) #3683 (#3697 #13252)
[new-match] 3040466771 #2770 #2767 #13899 #244 #120 #203 #120 ; #13900 (#7229 #7229) #3697 (#3696 #13861) #13821 (#3697 #13252)
[new-match] 1750360598 #2747 #2743 #13899 #244 #120 #203 #120 ; #13900 (#7229 #7229)
[mk-app] #13920 has_type #13861 #7229
[mk-app] #13921 not #13920
[mk-app] #13922 %Poly%tuple%2. #13861
[mk-app] #13923 tuple%2./tuple%2/1 #13922
[mk-app] #13924 has_type #13923 #244
[mk-app] #13925 or #13921 #13924
[inst-discovered] theory-solving 0x0 datatype# ; #13861
[mk-app] #13926 = #13861 #13859
[instance] 0x0 #13926
[attach-enode] #13926 0
[end-of-instance]
[mk-app] #13926 has_type #13859 #7229
[mk-app] #13927 not #13926
[mk-app] #13928 %Poly%tuple%2. #13859
[mk-app] #13929 tuple%2./tuple%2/1 #13928
[mk-app] #13930 has_type #13929 #244
[mk-app] #13931 or #13927 #13930
[mk-app] #13932 not #2782
[mk-app] #13933 or #13932 #13927 #13930
[instance] 1530893160 ; 3
[attach-enode] #13926 3
[attach-enode] #13928 3
[mk-app] #13934 tuple%2./tuple%2/?0 #13928
[mk-app] #13935 tuple%2./tuple%2/?1 #13928
[mk-app] #13936 tuple%2./tuple%2 #13934 #13935
[attach-enode] #13934 3
[attach-enode] #13935 3
[attach-enode] #13936 3
[mk-app] #13937 tuple%2./tuple%2/?0 #13936
[mk-app] #13938 = #13934 #13937
[new-match] 0 datatype#220 datatype#217 #13934 #13935 ; #13936
[instance] 0 #13938
[attach-enode] #13937 3
[end-of-instance]
[mk-app] #13938 tuple%2./tuple%2/?1 #13936
[mk-app] #13939 = #13935 #13938
[new-match] 0 datatype#223 datatype#217 #13934 #13935 ; #13936
[instance] 0 #13939
[attach-enode] #13938 3
[end-of-instance]
[attach-enode] #13929 3
[attach-enode] #13930 3
[end-of-instance]
[mk-app] #13931 tuple%2./tuple%2/0 #13922
[mk-app] #13939 has_type #13931 #203
[mk-app] #13940 or #13921 #13939
[mk-app] #13941 tuple%2./tuple%2/0 #13928
[mk-app] #13942 has_type #13941 #203
[mk-app] #13943 or #13927 #13942
[mk-app] #13944 not #2770
[mk-app] #13945 or #13944 #13927 #13942
[instance] 3040466771 ; 3
[attach-enode] #13941 3
[attach-enode] #13942 3
[end-of-instance]
[mk-app] #13943 Poly%tuple%2. #13922
[mk-app] #13946 = #13861 #13943
[mk-app] #13947 or #13921 #13946
[mk-app] #13948 Poly%tuple%2. #13928
[mk-app] #13949 = #13859 #13948
[mk-app] #13950 or #13927 #13949
[mk-app] #13951 not #2747
[mk-app] #13952 or #13951 #13927 #13949
[instance] 1750360598 ; 3
[attach-enode] #13948 3
[attach-enode] #13949 3
[end-of-instance]
[assign] #13926 justification -1: 2234 2232 2224 2223
[new-match] 2172985771 #2782 #2779 #3696 #244 #120 #203 #120 ; #3683 (#3697 #3697) #13900 (#3696 #13861) (#13899 #13861) (#7229 #7229)
[new-match] 3572552747 #2770 #2767 #3696 #244 #120 #203 #120 ; #13821 (#3697 #3697) #13900 (#3696 #13861) (#13899 #13861) (#7229 #7229)
[mk-app] #13950 or #13927 #13930
[instance] 2172985771 ; 3
[assign] #13930 justification -1: 671 2240
[end-of-instance]
[mk-app] #13950 or #13927 #13942
[instance] 3572552747 ; 3
[assign] #13942 justification -1: 669 2240
[end-of-instance]
[assign] #13949 clause 2243 -2240
[assign] #13865 justification -1: 2241 2209 2232 2224 1965 1966 1962 1961
[eq-expl] #13864 cg (#120 #120) (#244 #244) (#3903 #13816) (#13823 #13823) ; #13827
[eq-expl] #13827 root
[new-match] 3667202850 #525 #247 #13864 ; #13865 (#244 #244)
[new-match] 1420998744 #251 #247 #13864 ; #13865 (#244 #244)
[eq-expl] #13928 cg (#13859 #3696) ; #3697
[eq-expl] #13941 cg (#13928 #3697) ; #13821
[eq-expl] #13821 cg (#3697 #13252) ; #13884
[eq-expl] #13884 lit #13886 ; #13250
[eq-expl] #13250 ax ; #13253
[eq-expl] #13253 root
[new-match] 4245809972 #482 #206 #13941 ; #13942 (#203 #203)
[new-match] 877182954 #210 #206 #13941 ; #13942 (#203 #203)
[new-match] 1225884152 #2736 #2735 #13928 ; #13948
[eq-expl] #13251 lit #13871 ; #13869
[eq-expl] #13869 cg (#13252 #3697) ; #3683
[eq-expl] #3683 lit #13828 ; #13827
[eq-expl] #13948 lit #13949 ; #13859
[new-match] 549305367 #11641 #2754 #13251 #13250 #244 #120 #203 #120 ; #13900 (#7229 #7229) (#13899 #13948) (#13928 #13252)
[mk-app] #13950 has_type #13827 #244
[mk-app] #13953 not #13950
[mk-app] #13954 %I #13827
[mk-app] #13955 charInv #13954
[mk-app] #13956 or #13953 #13955
[inst-discovered] theory-solving 0x0 basic# ; #13956
[mk-app] #13957 = #13956 #13956
[instance] 0x0 #13957
[attach-enode] #13957 0
[end-of-instance]
[mk-app] #13957 not #525
[mk-app] #13958 or #13957 #13953 #13955
[instance] 3667202850 ; 3
[attach-enode] #13950 3
[attach-enode] #13954 3
[attach-enode] #13955 3
[end-of-instance]
[mk-app] #13959 I #13954
[mk-app] #13960 = #13827 #13959
[mk-app] #13961 or #13953 #13960
[mk-app] #13962 not #251
[mk-app] #13963 or #13962 #13953 #13960
[instance] 1420998744 ; 3
[attach-enode] #13959 3
[attach-enode] #13960 3
[end-of-instance]
[mk-app] #13964 has_type #13253 #203
[mk-app] #13965 not #13964
[mk-app] #13966 %I #13253
[mk-app] #13967 uInv #270 #13966
[mk-app] #13968 or #13965 #13967
[mk-app] #13969 has_type #13250 #203
[mk-app] #13970 not #13969
[mk-app] #13971 %I #13250
[mk-app] #13972 uInv #270 #13971
[mk-app] #13973 or #13970 #13972
[mk-app] #13974 not #482
[mk-app] #13975 or #13974 #13970 #13972
[instance] 4245809972 ; 4
[attach-enode] #13969 4
[attach-enode] #13971 4
[attach-enode] #13972 4
[end-of-instance]
[mk-app] #13973 I #13966
[mk-app] #13976 = #13253 #13973
[mk-app] #13977 or #13965 #13976
[mk-app] #13978 I #13971
[mk-app] #13979 = #13250 #13978
[mk-app] #13980 or #13970 #13979
[mk-app] #13981 not #210
[mk-app] #13982 or #13981 #13970 #13979
[instance] 877182954 ; 4
[attach-enode] #13978 4
[attach-enode] #13979 4
[end-of-instance]
[assign] #13950 justification -1: 2226 1965 1966 1962 1961
[assign] #13969 justification -1: 2242 2230 2232 2224
[assign] #13955 clause 2245 -2244
[assign] #13960 clause 2246 -2244
[assign] #13972 clause 2248 -2247
[assign] #13979 clause 2249 -2247
[eq-expl] #13954 cg (#13827 #3683) ; #3675
[eq-expl] #3675 root
[new-match] 1053403105 #11183 #454 #13954 ; #13955
[eq-expl] #13971 cg (#13250 #13821) ; #13822
[eq-expl] #13822 lit #13825 ; #13824
[eq-expl] #13824 root
[new-match] 2039972352 #11540 #442 #13971 #270 ; #13972
[new-match] 1971766224 #169 #168 #13954 ; #13959
[new-match] 669353760 #169 #168 #13971 ; #13978
[eq-expl] #13959 lit #13960 ; #13827
[new-match] 3425053004 #509 #505 #13954 ; #13865 (#244 #244) (#13864 #13959)
[eq-expl] #13978 lit #13979 ; #13250
[new-match] 3954363791 #10995 #470 #13971 ; #13942 (#203 #203) (#13941 #13978)
[mk-app] #13980 charInv #3675
[mk-app] #13983 >= #3675 #334
[mk-app] #13984 not #13983
[mk-app] #13985 <= #3675 #390
[mk-app] #13986 not #13985
[mk-app] #13987 or #13984 #13986
[mk-app] #13988 not #13987
[mk-app] #13989 >= #3675 #410
[mk-app] #13990 not #13989
[mk-app] #13991 <= #3675 #412
[mk-app] #13992 not #13991
[mk-app] #13993 or #13990 #13992
[mk-app] #13994 not #13993
[mk-app] #13995 or #13988 #13994
[mk-app] #13996 = #13980 #13995
[inst-discovered] theory-solving 0x0 basic# ; #13987
[mk-app] #13997 = #13987 #13987
[instance] 0x0 #13997
[attach-enode] #13997 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13993
[mk-app] #13997 = #13993 #13993
[instance] 0x0 #13997
[attach-enode] #13997 0
[end-of-instance]
[mk-app] #13997 or #4386 #13996
[instance] 1053403105 ; 4
[attach-enode] #13980 4
[assign] #13996 justification -1: 60
[end-of-instance]
[mk-app] #13998 >= #13824 #334
[mk-app] #13999 not #13998
[mk-app] #14000 + #13824 #13334
[mk-app] #14001 >= #14000 #334
[mk-app] #14002 or #13999 #14001
[mk-app] #14003 uInv #270 #13824
[mk-app] #14004 = #14002 #14003
[mk-app] #14005 not #14004
[mk-app] #14006 + #13334 #13824
[inst-discovered] theory-solving 0x0 arith# ; #14000
[mk-app] #14007 = #14000 #14006
[instance] 0x0 #14007
[attach-enode] #14007 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14007 * #363 #13824
[mk-app] #14008 + #284 #14007
[mk-app] #14009 <= #14008 #334
[mk-app] #14010 >= #14006 #334
[inst-discovered] theory-solving 0x0 arith# ; #14010
[mk-app] #14011 = #14010 #14009
[instance] 0x0 #14011
[attach-enode] #14011 0
[end-of-instance]
[mk-app] #14006 or #13999 #14009
[mk-app] #14010 = #14006 #14003
[mk-app] #14011 not #14006
[mk-app] #14012 not #14010
[inst-discovered] theory-solving 0x0 basic# ; #14012
[mk-app] #14011 = #14012 #14012
[instance] 0x0 #14011
[attach-enode] #14011 0
[end-of-instance]
[mk-app] #14011 or #13345 #14012
[instance] 2039972352 ; 5
[attach-enode] #14007 5
[attach-enode] #14008 5
[attach-enode] #14003 5
[assign] (not #14010) justification -1: 58
[end-of-instance]
[assign] #13980 justification -1: 2245 2209
[assign] #14003 justification -1: 2248 2208 2230
[assign] #13995 clause 2257 -2250 -2258
[assign] (not #14006) clause -2261 -2262 2263
[assign] #13998 clause 2259 2261
[assign] (not #14009) clause -2260 2261
[decide-and-or] #13232 #13193
[push] 13
[assign] #13193 decision axiom
[assign] (not #365) clause -1895 -1898 -1897
[assign] #3676 clause 1852 1895
[assign] #3669 clause 1853 1895
[assign] #3661 clause 1854 1895
[assign] #3654 clause 1856 1895
[assign] #434 clause 1894 1895
[assign] #3578 justification -1: 1856 1862 1855
[resolve-process] true
[resolve-lit] 0 (not #3654)
[resolve-lit] 3 (not #13255)
[conflict] (not #3654) (not #13255)
[pop] 3 14
[assign] (not #3654) clause -1856 -1855
[assign] #365 clause 1895 1856
[push] 11
[assign] #13256 decision axiom
[mk-app] #13871 = #3587 #8759
[mk-app] #13886 => #13256 #13871
[inst-discovered] theory-solving 0x0 datatype# ; #3587
[instance] 0 #13886
[end-of-instance]
[assign] (not #3578) justification -1: -1856 1862 1855
[assign] #433 clause 1893 1863
[push] 12
[assign] (not #3364) decision axiom
[assign] (not #13257) clause -1886 1885
[assign] (not #13820) clause -2207 1886 -1846 -2219 -2221
[assign] (not #13830) clause -2210 2207 -2211
[assign] #1160 clause 1851 2210
[assign] #13825 clause 2208 2210
[assign] #13828 clause 2209 2210
[assign] #347 clause 1897 -1851
[assign] (not #13193) clause -1898 -1897 -1895
[assign] #3725 clause 1849 1898
[assign] (not #3726) clause -1850 1898
[mk-app] #13871 = #3719 #13860
[mk-app] #13886 => #1160 #13871
[inst-discovered] theory-solving 0x0 datatype# ; #3719
[instance] 0 #13886
[end-of-instance]
[attach-enode] #13859 0
[attach-enode] #13860 0
[mk-app] #13871 = #13859 #13861
[new-match] 0 datatype#15 datatype#12 #13859 ; #13860
[instance] 0 #13871
[attach-enode] #13861 0
[end-of-instance]
[new-match] 2212902533 #7286 #7281 #3922 ; #3726
[new-match] 1755287860 #11858 #3908 #13823 #13816 #244 #120 ; #13827
[new-match] 2571206668 #2775 #2774 #3697 ; #3683
[new-match] 472461204 #6732 #6731 #13823 #13816 ; #13824
[new-match] 2199899837 #169 #168 #13814 ; #13823
[new-match] 1095615642 #2763 #2762 #3697 ; #13821
[new-match] 674221547 #1739 #1734 #3705 #7229 #7289 ; #3696
[new-match] 605875641 #1746 #1743 #3704 #7229 #7289 ; #3696 (#3705 #3705) #7290 (#7289 #7289) (#7229 #7229) #13811 (#3704 #13853) (#7290 #7290)
[eq-expl] #13859 ax ; #13861
[eq-expl] #13861 root
[eq-expl] #13860 unknown ; #3719
[new-match] 1793823357 #1728 #1724 #13859 #7229 #7289 ; #13811 (#3704 #13853) (#7290 #7290) (#3705 #13860)
[mk-app] #13871 req%u_tokenizer!lex.impl&%1.peek. #13435
[mk-app] #13886 u_tokenizer!lex.impl&%1.wf.? #13813
[mk-app] #13919 or #7283 #13886
[mk-app] #13934 = #13871 #13919
[mk-app] #13935 not #7286
[mk-app] #13936 or #13935 #13934
[instance] 2212902533 ; 1
[attach-enode] #13871 1
[attach-enode] #13886 1
[assign] #13934 justification -1: 1237
[end-of-instance]
[mk-app] #13937 not #11858
[mk-app] #13938 or #13937 #13451 #13863 #13865
[instance] 1755287860 ; 2
[attach-enode] #13862 2
[attach-enode] #13864 2
[attach-enode] #13865 2
[end-of-instance]
[mk-app] #13972 = #13869 #13251
[mk-app] #14006 not #2775
[mk-app] #14010 or #14006 #13972
[instance] 2571206668 ; 1
[attach-enode] #13869 1
[attach-enode] #13972 1
[assign] #13972 justification -1: 670
[end-of-instance]
[mk-app] #14012 not #6732
[mk-app] #14011 or #14012 #13877
[instance] 472461204 ; 2
[attach-enode] #13874 2
[attach-enode] #5644 2
[attach-enode] #13875 2
[attach-enode] #13876 2
[attach-enode] #13877 2
[assign] #13877 justification -1: 1180
[end-of-instance]
[mk-app] #13997 or #13617 #13882
[instance] 2199899837 ; 2
[attach-enode] #13880 2
[attach-enode] #13881 2
[attach-enode] #13882 2
[assign] #13882 justification -1: 25
[end-of-instance]
[mk-app] #13981 = #13884 #13250
[mk-app] #13982 not #2763
[mk-app] #13974 or #13982 #13981
[instance] 1095615642 ; 2
[attach-enode] #13884 2
[attach-enode] #13981 2
[assign] #13981 justification -1: 668
[end-of-instance]
[mk-app] #13975 not #1739
[mk-app] #13962 or #13975 #13890 #13892
[instance] 674221547 ; 1
[attach-enode] #13889 1
[attach-enode] #13891 1
[attach-enode] #13892 1
[end-of-instance]
[mk-app] #13963 not #1746
[mk-app] #13957 or #13963 #13897 #13900
[instance] 605875641 ; 2
[attach-enode] #13896 2
[attach-enode] #13898 2
[attach-enode] #13899 2
[attach-enode] #13900 2
[end-of-instance]
[assign] (not #13871) justification -1: -1850 1961
[assign] #13886 justification -1: 1834 1961
[assign] #13889 justification -1: 1851 2224
[assign] #13896 justification -1: 2206 2223
[eq-expl] #13875 root
[new-match] 1656893398 #11029 #6617 #13875 ; #13876
[eq-expl] #5644 root
[new-match] 3678045300 #11876 #3981 #13823 #5644 #3903 #244 #120 ; #13875
[new-match] 3774712549 #169 #168 #334 ; #5644
[mk-app] #13958 or #13649 #13905 #13907
[instance] 1656893398 ; 3
[attach-enode] #13904 3
[attach-enode] #13906 3
[attach-enode] #13907 3
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13913
[mk-app] #13951 = #13913 #13913
[instance] 0x0 #13951
[attach-enode] #13951 0
[end-of-instance]
[mk-app] #13951 not #11876
[mk-app] #13952 or #13951 #13451 #13911 #13863 #13912
[instance] 3678045300 ; 3
[attach-enode] #13910 3
[attach-enode] #13912 3
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #13944 * #363 #13916
[mk-app] #13945 = #13916 #334
[inst-discovered] theory-solving 0x0 arith# ; #13917
[mk-app] #13944 = #13917 #13945
[instance] 0x0 #13944
[attach-enode] #13944 0
[end-of-instance]
[mk-app] #13944 or #13617 #13945
[instance] 3774712549 ; 3
[attach-enode] #13916 3
[attach-enode] #13945 3
[assign] #13945 justification -1: 25
[end-of-instance]
[assign] (not #13919) clause -2228 2225 -2229
[resolve-process] true
[resolve-lit] 0 #13919
[resolve-lit] 0 (not #13886)
[resolve-process] #13919
[resolve-lit] 0 #13871
[resolve-lit] 0 (not #13934)
[resolve-process] (not #13886)
[resolve-process] #13871
[resolve-lit] 0 #3726
[resolve-process] (not #13934)
[conflict] #3726
[pop] 1 13
[assign] #3726 axiom
[assign] #13193 clause 1898 -1850
[assign] #13227 clause 1913 -1850
[assign] (not #347) clause -1897 -1898 -1895
[assign] (not #1160) clause -1851 1897
[assign] #3080 clause 1896 1897
[assign] (not #3364) clause -1885 1897
[assign] #13830 clause 2210 1851
[assign] (not #13257) clause -1886 1885
[assign] #13820 clause 2207 -2210 -2211
[resolve-process] true
[resolve-lit] 0 (not #13820)
[resolve-lit] 0 #13257
[resolve-lit] 2 (not #13848)
[resolve-lit] 2 (not #13851)
[resolve-process] (not #13820)
[resolve-lit] 0 (not #13830)
[resolve-lit] 2 (not #13832)
[resolve-process] #13257
[resolve-lit] 0 #3364
[resolve-process] (not #13830)
[resolve-lit] 0 #1160
[resolve-process] #3364
[resolve-lit] 0 #347
[resolve-process] #1160
[conflict] #347 (not #13832)
[pop] 2 12
[assign] #3726 axiom
[assign] #347 clause 1897 -2211
[assign] #13193 clause 1898 -1850
[assign] #13227 clause 1913 -1850
[assign] (not #365) clause -1895 -1898 -1897
[assign] #1160 clause 1851 1895
[assign] #3676 clause 1852 1895
[assign] #3669 clause 1853 1895
[assign] #3661 clause 1854 1895
[assign] #3654 clause 1856 1895
[assign] #434 clause 1894 1895
[assign] (not #13255) clause -1855 -1856
[mk-app] #13972 is #3653
[attach-enode] #13972 0
[mk-app] #13981 = #3719 #13860
[mk-app] #13945 => #1160 #13981
[inst-discovered] theory-solving 0x0 datatype# ; #3719
[instance] 0 #13945
[end-of-instance]
[attach-enode] #13859 0
[attach-enode] #13860 0
[mk-app] #13981 = #13859 #13861
[new-match] 0 datatype#15 datatype#12 #13859 ; #13860
[instance] 0 #13981
[attach-enode] #13861 0
[end-of-instance]
[assign] (not #13804) justification -1: -1855 1856 2202
[new-match] 2212902533 #7286 #7281 #3922 ; #3726
[new-match] 2571206668 #2775 #2774 #3697 ; #3683
[new-match] 674221547 #1739 #1734 #3705 #7229 #7289 ; #3696
[new-match] 605875641 #1746 #1743 #3704 #7229 #7289 ; #3696 (#3705 #3705) #7290 (#7289 #7289) (#7229 #7229) #13811 (#3704 #13853) (#7290 #7290)
[eq-expl] #13859 ax ; #13861
[eq-expl] #13861 root
[eq-expl] #13860 unknown ; #3719
[new-match] 1793823357 #1728 #1724 #13859 #7229 #7289 ; #13811 (#3704 #13853) (#7290 #7290) (#3705 #13860)
[mk-app] #13981 = #13869 #13251
[mk-app] #13945 not #2775
[mk-app] #13944 or #13945 #13981
[instance] 2571206668 ; 1
[attach-enode] #13869 1
[attach-enode] #13981 1
[assign] #13981 justification -1: 670
[end-of-instance]
[mk-app] #13951 not #1739
[mk-app] #13952 or #13951 #13890 #13892
[instance] 674221547 ; 1
[attach-enode] #13889 1
[attach-enode] #13891 1
[attach-enode] #13892 1
[end-of-instance]
[mk-app] #13958 not #1746
[mk-app] #13963 or #13958 #13897 #13900
[instance] 605875641 ; 2
[attach-enode] #13896 2
[attach-enode] #13898 2
[attach-enode] #13899 2
[attach-enode] #13900 2
[end-of-instance]
[assign] #13889 justification -1: 1851 2224
[assign] #13896 justification -1: 2206 2223
[assign] #13892 clause 2228 -2227
[assign] #13900 clause 2230 -2229
[eq-expl] #13898 cg (#13853 #3704) ; #3705
[eq-expl] #13899 cg (#7289 #7289) (#7229 #7229) (#13898 #3705) ; #3696
[eq-expl] #3696 lit #13892 ; #13891
[eq-expl] #13891 cg (#3705 #3719) ; #13859
[new-match] 1530893160 #2782 #2779 #13899 #244 #120 #203 #120 ; #13900 (#7229 #7229) #3697 (#3696 #13861) #3683 (#3697 #13252)
[new-match] 1750360598 #2747 #2743 #13899 #244 #120 #203 #120 ; #13900 (#7229 #7229)
[mk-app] #13957 or #13927 #13930
[mk-app] #13975 not #2782
[mk-app] #13962 or #13975 #13927 #13930
[instance] 1530893160 ; 3
[attach-enode] #13926 3
[attach-enode] #13928 3
[mk-app] #13982 tuple%2./tuple%2/?0 #13928
[mk-app] #13974 tuple%2./tuple%2/?1 #13928
[mk-app] #13997 tuple%2./tuple%2 #13982 #13974
[attach-enode] #13982 3
[attach-enode] #13974 3
[attach-enode] #13997 3
[mk-app] #14012 tuple%2./tuple%2/?0 #13997
[mk-app] #14011 = #13982 #14012
[new-match] 0 datatype#220 datatype#217 #13982 #13974 ; #13997
[instance] 0 #14011
[attach-enode] #14012 3
[end-of-instance]
[mk-app] #14011 tuple%2./tuple%2/?1 #13997
[mk-app] #14006 = #13974 #14011
[new-match] 0 datatype#223 datatype#217 #13982 #13974 ; #13997
[instance] 0 #14006
[attach-enode] #14011 3
[end-of-instance]
[attach-enode] #13929 3
[attach-enode] #13930 3
[end-of-instance]
[mk-app] #13957 or #13927 #13949
[mk-app] #14006 not #2747
[mk-app] #14010 or #14006 #13927 #13949
[instance] 1750360598 ; 3
[attach-enode] #13948 3
[attach-enode] #13949 3
[end-of-instance]
[assign] #13926 justification -1: 2230 2228 2224 2223
[new-match] 2172985771 #2782 #2779 #3696 #244 #120 #203 #120 ; #3683 (#3697 #3697) #13900 (#3696 #13861) (#13899 #13861) (#7229 #7229)
[mk-app] #13957 or #13927 #13930
[instance] 2172985771 ; 3
[assign] #13930 justification -1: 671 2231
[end-of-instance]
[assign] #13949 clause 2233 -2231
[eq-expl] #13928 cg (#13859 #3696) ; #3697
[eq-expl] #13929 cg (#13928 #3697) ; #3683
[eq-expl] #3683 cg (#3697 #13252) ; #13869
[eq-expl] #13869 lit #13981 ; #13251
[eq-expl] #13251 ax ; #13254
[eq-expl] #13254 root
[new-match] 69851722 #525 #247 #13929 ; #13930 (#244 #244)
[new-match] 496827674 #251 #247 #13929 ; #13930 (#244 #244)
[new-match] 1225884152 #2736 #2735 #13928 ; #13948
[eq-expl] #13948 lit #13949 ; #13859
[new-match] 549305367 #11641 #2754 #13251 #13250 #244 #120 #203 #120 ; #13900 (#7229 #7229) (#13899 #13948) (#13928 #13252)
[mk-app] #13957 has_type #13254 #244
[mk-app] #13937 not #13957
[mk-app] #13938 %I #13254
[mk-app] #13935 charInv #13938
[mk-app] #13936 or #13937 #13935
[mk-app] #13932 has_type #13251 #244
[mk-app] #13933 not #13932
[mk-app] #13918 %I #13251
[mk-app] #13914 charInv #13918
[mk-app] #13915 or #13933 #13914
[inst-discovered] theory-solving 0x0 basic# ; #13915
[mk-app] #13909 = #13915 #13915
[instance] 0x0 #13909
[attach-enode] #13909 0
[end-of-instance]
[mk-app] #13909 not #525
[mk-app] #13902 or #13909 #13933 #13914
[instance] 69851722 ; 4
[attach-enode] #13932 4
[attach-enode] #13918 4
[attach-enode] #13914 4
[end-of-instance]
[mk-app] #13915 I #13938
[mk-app] #13903 = #13254 #13915
[mk-app] #13894 or #13937 #13903
[mk-app] #13895 I #13918
[mk-app] #13887 = #13251 #13895
[mk-app] #13888 or #13933 #13887
[mk-app] #13883 not #251
[mk-app] #13878 or #13883 #13933 #13887
[instance] 496827674 ; 4
[attach-enode] #13895 4
[attach-enode] #13887 4
[end-of-instance]
[assign] #13932 justification -1: 2232 2226 2228 2224
[assign] #13914 clause 2235 -2234
[assign] #13887 clause 2236 -2234
[eq-expl] #13918 cg (#13251 #3683) ; #3675
[new-match] 2650835325 #11183 #454 #13918 ; #13914
[eq-expl] #3682 lit #3676 ; #3675
[new-match] 1908524723 #169 #168 #3682 ; #3571
[eq-expl] #3571 cg (#3682 #13918) ; #13895
[eq-expl] #13895 lit #13887 ; #13251
[new-match] 3031462151 #509 #505 #3682 ; #13930 (#244 #244) (#13929 #3571)
[mk-app] #13888 or #4386 #13996
[instance] 2650835325 ; 5
[attach-enode] #13980 5
[assign] #13996 justification -1: 60
[end-of-instance]
[assign] #13980 justification -1: 2235 2226
[assign] #13995 clause 2244 -2237 -2245
[push] 10
[assign] #13256 decision axiom
[mk-app] #13879 = #3587 #8759
[mk-app] #13872 => #13256 #13879
[inst-discovered] theory-solving 0x0 datatype# ; #3587
[instance] 0 #13872
[end-of-instance]
[attach-enode] #8759 0
[push] 11
[assign] (not #3364) decision axiom
[assign] (not #13257) clause -1886 1885
[assign] (not #13820) clause -2207 1886 -1846 -2219 -2221
[assign] (not #13830) clause -2210 2207 -2211
[assign] #13825 clause 2208 2210
[assign] #13828 clause 2209 2210
[new-match] 1755287860 #11858 #3908 #13823 #13816 #244 #120 ; #13827
[new-match] 472461204 #6732 #6731 #13823 #13816 ; #13824
[new-match] 2199899837 #169 #168 #13814 ; #13823
[new-match] 1095615642 #2763 #2762 #3697 ; #13821
[new-match] 3572552747 #2770 #2767 #3696 #244 #120 #203 #120 ; #13821 (#3697 #3697) #13900 (#3696 #13861) (#13899 #13861) (#7229 #7229)
[mk-app] #13879 not #6732
[mk-app] #13872 or #13879 #13877
[instance] 472461204 ; 2
[attach-enode] #13874 2
[attach-enode] #5644 2
[attach-enode] #13875 2
[attach-enode] #13876 2
[attach-enode] #13877 2
[assign] #13877 justification -1: 1180
[end-of-instance]
[mk-app] #13873 or #13617 #13882
[instance] 2199899837 ; 2
[attach-enode] #13880 2
[attach-enode] #13881 2
[attach-enode] #13882 2
[assign] #13882 justification -1: 25
[end-of-instance]
[mk-app] #13867 = #13884 #13250
[mk-app] #13868 not #2763
[mk-app] #14013 or #13868 #13867
[instance] 1095615642 ; 2
[attach-enode] #13884 2
[attach-enode] #13867 2
[assign] #13867 justification -1: 668
[end-of-instance]
[mk-app] #14014 or #13927 #13942
[mk-app] #14015 not #2770
[mk-app] #14016 or #14015 #13927 #13942
[instance] 3572552747 ; 3
[attach-enode] #13941 3
[attach-enode] #13942 3
[assign] #13942 justification -1: 669 2231
[end-of-instance]
[eq-expl] #13875 root
[new-match] 1656893398 #11029 #6617 #13875 ; #13876
[eq-expl] #5644 root
[new-match] 3678045300 #11876 #3981 #13823 #5644 #3903 #244 #120 ; #13875
[new-match] 3774712549 #169 #168 #334 ; #5644
[eq-expl] #13941 cg (#13928 #3697) ; #13821
[eq-expl] #13821 cg (#3697 #13252) ; #13884
[eq-expl] #13884 lit #13867 ; #13250
[new-match] 4245809972 #482 #206 #13941 ; #13942 (#203 #203)
[new-match] 877182954 #210 #206 #13941 ; #13942 (#203 #203)
[mk-app] #14014 or #13649 #13905 #13907
[instance] 1656893398 ; 3
[attach-enode] #13904 3
[attach-enode] #13906 3
[attach-enode] #13907 3
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13913
[mk-app] #14017 = #13913 #13913
[instance] 0x0 #14017
[attach-enode] #14017 0
[end-of-instance]
[mk-app] #14017 not #11876
[mk-app] #14018 or #14017 #13451 #13911 #13863 #13912
[instance] 3678045300 ; 3
[attach-enode] #13910 3
[attach-enode] #13862 3
[attach-enode] #13912 3
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14019 * #363 #13916
[mk-app] #14020 = #13916 #334
[inst-discovered] theory-solving 0x0 arith# ; #13917
[mk-app] #14019 = #13917 #14020
[instance] 0x0 #14019
[attach-enode] #14019 0
[end-of-instance]
[mk-app] #14019 or #13617 #14020
[instance] 3774712549 ; 3
[attach-enode] #13916 3
[attach-enode] #14020 3
[assign] #14020 justification -1: 25
[end-of-instance]
[mk-app] #14021 uInv #270 #13971
[mk-app] #14022 or #13970 #14021
[mk-app] #14023 not #482
[mk-app] #14024 or #14023 #13970 #14021
[instance] 4245809972 ; 4
[attach-enode] #13969 4
[attach-enode] #13971 4
[attach-enode] #14021 4
[end-of-instance]
[mk-app] #14022 or #13970 #13979
[mk-app] #14025 not #210
[mk-app] #14026 or #14025 #13970 #13979
[instance] 877182954 ; 4
[attach-enode] #13978 4
[attach-enode] #13979 4
[end-of-instance]
[assign] #13969 justification -1: 2249 2248 2228 2224
[assign] #14021 clause 2257 -2256
[assign] #13979 clause 2258 -2256
[eq-expl] #13971 cg (#13250 #13821) ; #13822
[eq-expl] #13822 lit #13825 ; #13824
[new-match] 2039972352 #11540 #442 #13971 #270 ; #14021
[new-match] 669353760 #169 #168 #13971 ; #13978
[eq-expl] #13978 lit #13979 ; #13250
[new-match] 3954363791 #10995 #470 #13971 ; #13942 (#203 #203) (#13941 #13978)
[mk-app] #14022 or #13999 #14009
[mk-app] #14027 = #14022 #14003
[mk-app] #14028 not #14022
[mk-app] #14029 not #14027
[inst-discovered] theory-solving 0x0 basic# ; #14029
[mk-app] #14028 = #14029 #14029
[instance] 0x0 #14028
[attach-enode] #14028 0
[end-of-instance]
[mk-app] #14028 or #13345 #14029
[instance] 2039972352 ; 5
[attach-enode] #14007 5
[attach-enode] #14008 5
[attach-enode] #14003 5
[assign] (not #14027) justification -1: 58
[end-of-instance]
[assign] #14003 justification -1: 2257 2208 2248
[assign] (not #14022) clause -2261 -2262 2263
[assign] #13998 clause 2259 2261
[assign] (not #14009) clause -2260 2261
[push] 12
[assign] (not #13228) decision axiom
[assign] (not #739) justification -1: -1813
[assign] (not #13264) justification -1: -1813 1953
[assign] (not #13268) justification -1: -1813 1953
[assign] (not #13397) justification -1: -1813 1953
[assign] (not #13401) justification -1: -1813 1953
[push] 13
[assign] (not #432) decision axiom
[assign] (not #155) justification -1: -1816
[assign] (not #13277) justification -1: -1816 1956
[assign] (not #13281) justification -1: -1816 1956
[assign] (not #13408) justification -1: -1816 1956
[assign] (not #13412) justification -1: -1816 1956
[push] 14
[assign] (not #13221) decision axiom
[assign] (not #13239) justification -1: -1819
[assign] (not #13290) justification -1: -1819 1959
[assign] (not #13294) justification -1: -1819 1959
[assign] (not #13419) justification -1: -1819 1959
[assign] (not #13423) justification -1: -1819 1959
[decide-and-or] #13227 #3277
[push] 15
[assign] #3277 decision axiom
[decide-and-or] #434 #658
[push] 16
[assign] (not #1136) decision axiom
[assign] #3646 clause 1857 1859
[assign] (not #3647) clause -1858 1859
[eq-expl] #3668 lit #3669 ; #3838
[eq-expl] #3660 lit #3661 ; #3764
[eq-expl] #3653 lit #3654 ; #8401
[new-match] 816311876 #13099 #10655 #3653 #3660 #3668 #3902 ; #3647
[mk-app] #14030 >= #3838 #334
[mk-app] #14031 not #14030
[mk-app] #14032 + #3764 #13782
[mk-app] #14033 >= #14032 #334
[mk-app] #14034 not #14033
[mk-app] #14035 Poly%vstd!seq.Seq<char.>. #13443
[mk-app] #14036 u_tokenizer!lex.scan.? #14035 #3839 #8402
[mk-app] #14037 * #363 #14036
[mk-app] #14038 + #3764 #14037
[mk-app] #14039 <= #14038 #334
[mk-app] #14040 not #14039
[mk-app] #14041 or #14031 #14034 #14040
[mk-app] #14042 not #14041
[mk-app] #14043 or #10664 #14042
[mk-app] #14044 not #14043
[mk-app] #14045 vstd!seq.Seq.len.? #120 #244 #14035
[mk-app] #14046 * #363 #14045
[mk-app] #14047 + #3838 #14046
[mk-app] #14048 <= #14047 #334
[mk-app] #14049 or #10669 #14048
[mk-app] #14050 not #14049
[mk-app] #14051 or #14044 #14050
[mk-app] #14052 req%u_tokenizer!lex.lemma_scan_on. #13443 #3838 #3764 #8401
[mk-app] #14053 = #14051 #14052
[mk-app] #14054 not #14053
[inst-discovered] theory-solving 0x0 basic# ; #14051
[mk-app] #14055 = #14051 #14051
[instance] 0x0 #14055
[attach-enode] #14055 0
[end-of-instance]
[mk-app] #14055 not #14051
[inst-discovered] theory-solving 0x0 basic# ; #14054
[mk-app] #14055 = #14054 #14054
[instance] 0x0 #14055
[attach-enode] #14055 0
[end-of-instance]
[mk-app] #14055 not #13099
[mk-app] #14056 or #14055 #14054
[instance] 816311876 ; 1
[attach-enode] #14032 1
[attach-enode] #14035 1
[attach-enode] #14036 1
[attach-enode] #14037 1
[attach-enode] #14038 1
[attach-enode] #14045 1
[attach-enode] #14046 1
[attach-enode] #14047 1
[attach-enode] #14052 1
[assign] (not #14053) justification -1: 1739
[end-of-instance]
[assign] (not #14052) justification -1: -1858 1856 1854 1853 1965
[mk-app] #14057 = #3872 #14036
[attach-meaning] #363 arith (- 1)
[mk-app] #14058 + #3872 #14037
[mk-app] #14059 <= #14058 #334
[mk-app] #14060 >= #14058 #334
[assign] #14057 justification -1: 1839 1838 1965
[attach-enode] #14057 0
[attach-enode] #14058 0
[assign] #14059 justification -1: 2276
[assign] #14060 justification -1: 2276
[mk-app] #14061 = #3865 #14045
[attach-meaning] #363 arith (- 1)
[mk-app] #14062 + #3865 #14046
[mk-app] #14063 <= #14062 #334
[mk-app] #14064 >= #14062 #334
[assign] #14061 justification -1: 1965
[attach-enode] #14061 0
[attach-enode] #14062 0
[assign] #14063 justification -1: 2279
[assign] #14064 justification -1: 2279
[assign] #14033 clause 2266 -2205 -1844
[assign] #14051 clause 2273 2274 2275
[assign] #14039 clause 2267 -2277 -1845
[assign] #14048 clause 2271 -2280 -1846 -2205 -1844 -1845
[assign] #14049 clause 2272 -2271
[assign] (not #14043) clause -2269 -2272 -2273
[assign] #10626 clause 2264 2269
[assign] #14041 clause 2268 2269
[assign] (not #14030) clause -2265 -2268 -2266 -2267
[resolve-process] true
[resolve-lit] 8 (not #13790)
[resolve-lit] 0 #14030
[conflict] #14030
[pop] 1 17
[attach-enode] #14032 0
[assign] #14033 clause 2264 -2205 -1844
[attach-enode] #14035 0
[attach-enode] #14036 0
[attach-enode] #14037 0
[attach-enode] #14038 0
[attach-enode] #14058 0
[attach-enode] #14045 0
[attach-enode] #14046 0
[attach-enode] #14047 0
[attach-enode] #14062 0
[assign] #14030 axiom
[mk-app] #14057 = #3872 #14036
[attach-meaning] #363 arith (- 1)
[mk-app] #14060 >= #14058 #334
[assign] #14057 justification -1: 1839 1838 1965
[attach-enode] #14057 0
[assign] #14059 justification -1: 2270
[assign] #14060 justification -1: 2270
[mk-app] #14061 = #3865 #14045
[attach-meaning] #363 arith (- 1)
[mk-app] #14064 >= #14062 #334
[assign] #14061 justification -1: 1965
[attach-enode] #14061 0
[assign] #14063 justification -1: 2272
[assign] #14064 justification -1: 2272
[assign] #14039 clause 2265 -2266 -1845
[assign] #14048 clause 2267 -2268 -1846 -2205 -1845 -1844
[decide-and-or] #434 #658
[push] 16
[assign] (not #1136) decision axiom
[assign] #3646 clause 1857 1859
[assign] (not #3647) clause -1858 1859
[new-match] 816311876 #13099 #10655 #3653 #3660 #3668 #3902 ; #3647
[inst-discovered] theory-solving 0x0 basic# ; #14051
[mk-app] #14055 = #14051 #14051
[instance] 0x0 #14055
[attach-enode] #14055 0
[end-of-instance]
[mk-app] #14055 not #14051
[inst-discovered] theory-solving 0x0 basic# ; #14054
[mk-app] #14055 = #14054 #14054
[instance] 0x0 #14055
[attach-enode] #14055 0
[end-of-instance]
[mk-app] #14055 not #13099
[mk-app] #14056 or #14055 #14054
[instance] 816311876 ; 1
[assign] (not #14041) justification -1: 2264 2265 2269
[assign] #14043 justification -1: -2275
[assign] #14049 justification -1: 2267
[assign] (not #14051) justification -1: 2276 2278
[attach-enode] #14052 1
[assign] (not #14053) justification -1: 1739
[end-of-instance]
[assign] #14052 clause 2280 2281
[resolve-lit] 0 (not #14052)
[resolve-process] #14052
[resolve-lit] 0 #3647
[resolve-lit] 7 (not #3654)
[resolve-lit] 7 (not #3661)
[resolve-lit] 7 (not #3669)
[resolve-process] (not #14052)
[resolve-lit] 0 #14053
[resolve-lit] 0 #14051
[resolve-process] #14053
[resolve-process] #14051
[resolve-lit] 0 (not #14043)
[resolve-lit] 0 (not #14049)
[resolve-process] (not #14049)
[resolve-lit] 1 (not #14048)
[resolve-process] (not #14043)
[resolve-lit] 0 #14041
[resolve-process] #14041
[resolve-lit] 1 (not #14033)
[resolve-lit] 1 (not #14039)
[resolve-lit] 1 (not #14030)
[conflict] #3647 (not #3654) (not #3661) (not #3669) (not #14048) (not #14033) (not #14039) (not #14030)
[pop] 1 17
[assign] #3647 clause 1858 -2267 -1854 -1853 -1856 -2264 -2265 -2269
[assign] #1136 clause 1859 -1858
[assign] (not #433) clause -1893 -1859 -1894
[assign] #3640 clause 1860 1893
[assign] #3586 clause 1861 1893
[assign] #3578 clause 1863 1893
[assign] #639 clause 1892 1893
[resolve-process] true
[resolve-lit] 0 (not #3578)
[resolve-lit] 5 (not #13256)
[conflict] (not #3578) (not #13256)
[pop] 5 16
[attach-enode] #14032 0
[assign] #14033 clause 2246 -2205 -1844
[attach-enode] #14035 0
[attach-enode] #14036 0
[attach-enode] #14037 0
[attach-enode] #14038 0
[attach-enode] #14058 0
[attach-enode] #14045 0
[attach-enode] #14046 0
[attach-enode] #14047 0
[attach-enode] #14062 0
[assign] #14030 axiom
[assign] (not #3578) clause -1863 -1862
[assign] #433 clause 1893 1863
[assign] (not #1136) clause -1859 -1893 -1894
[assign] #3646 clause 1857 1859
[assign] (not #3647) clause -1858 1859
[mk-app] #13867 = #3872 #14036
[attach-meaning] #363 arith (- 1)
[mk-app] #14020 >= #14058 #334
[assign] #13867 justification -1: 1839 1838 1965
[attach-enode] #13867 0
[assign] #14059 justification -1: 2252
[assign] #14020 justification -1: 2252
[mk-app] #14021 = #3865 #14045
[attach-meaning] #363 arith (- 1)
[mk-app] #14022 >= #14062 #334
[assign] #14021 justification -1: 1965
[attach-enode] #14021 0
[assign] #14063 justification -1: 2254
[assign] #14022 justification -1: 2254
[new-match] 816311876 #13099 #10655 #3653 #3660 #3668 #3902 ; #3647
[inst-discovered] theory-solving 0x0 basic# ; #14051
[mk-app] #14027 = #14051 #14051
[instance] 0x0 #14027
[attach-enode] #14027 0
[end-of-instance]
[mk-app] #14027 not #14051
[inst-discovered] theory-solving 0x0 basic# ; #14054
[mk-app] #14027 = #14054 #14054
[instance] 0x0 #14027
[attach-enode] #14027 0
[end-of-instance]
[mk-app] #14027 not #13099
[mk-app] #14057 or #14027 #14054
[instance] 816311876 ; 1
[attach-enode] #14052 1
[assign] (not #14053) justification -1: 1739
[end-of-instance]
[assign] #14039 clause 2247 -2248 -1845
[assign] #14048 clause 2249 -2250 -1846 -2205 -1845 -1844
[resolve-process] true
[resolve-lit] 0 (not #14048)
[resolve-lit] 0 (not #14039)
[resolve-lit] 1 (not #3661)
[resolve-lit] 1 (not #3669)
[resolve-lit] 0 (not #14030)
[resolve-lit] 0 (not #14033)
[resolve-lit] 0 #3647
[resolve-lit] 1 (not #3654)
[resolve-process] (not #14048)
[resolve-lit] 0 (not #14063)
[resolve-lit] 2 (not #13810)
[resolve-process] (not #14039)
[resolve-lit] 0 (not #14059)
[resolve-process] (not #14063)
[resolve-lit] 0 (not #14021)
[resolve-process] (not #14021)
[resolve-process] (not #14059)
[resolve-lit] 0 (not #13867)
[resolve-process] (not #13867)
[resolve-lit] 2 (not #13247)
[resolve-process] #3647
[resolve-lit] 0 #1136
[resolve-process] #1136
[resolve-lit] 0 (not #433)
[resolve-lit] 1 (not #434)
[resolve-process] (not #433)
[resolve-lit] 0 #3578
[resolve-process] #3578
[resolve-lit] 0 (not #13256)
[resolve-process] (not #14030)
[resolve-process] (not #14033)
[conflict] (not #13256) (not #3661) (not #3669) (not #3654) (not #13810) (not #13247) (not #434)
[pop] 1 11
[attach-enode] #14032 0
[assign] #14033 clause 2246 -2205 -1844
[attach-enode] #14035 0
[attach-enode] #14036 0
[attach-enode] #14037 0
[attach-enode] #14038 0
[attach-enode] #14058 0
[attach-enode] #14045 0
[attach-enode] #14046 0
[attach-enode] #14047 0
[attach-enode] #14062 0
[assign] #14030 axiom
[assign] (not #13256) clause -1862 -1854 -1853 -1856 -2205 -1838 -1894
[mk-app] #13867 is #3587
[attach-enode] #13867 0
[mk-app] #14020 = #3872 #14036
[attach-meaning] #363 arith (- 1)
[mk-app] #14021 >= #14058 #334
[assign] #14020 justification -1: 1839 1838 1965
[attach-enode] #14020 0
[assign] #14059 justification -1: 2253
[assign] #14021 justification -1: 2253
[mk-app] #14022 = #3865 #14045
[attach-meaning] #363 arith (- 1)
[mk-app] #14027 >= #14062 #334
[assign] #14022 justification -1: 1965
[attach-enode] #14022 0
[assign] #14063 justification -1: 2255
[assign] #14027 justification -1: 2255
[assign] #14039 clause 2247 -2248 -1845
[assign] #14048 clause 2249 -2250 -1846 -2205 -1845 -1844
[assign] #3647 clause 1858 -2249 -1854 -1853 -2251 -2246 -2247 -1856
[assign] #1136 clause 1859 -1858
[assign] (not #433) clause -1893 -1859 -1894
[assign] #3640 clause 1860 1893
[assign] #3586 clause 1861 1893
[assign] #3578 clause 1863 1893
[assign] #639 clause 1892 1893
[new-match] 3674115839 #10679 #10678 #3653 #3660 #3668 #3902 ; #3640
[new-match] 2116171513 #550 #548 #289 #3764 ; #3594
[mk-app] #14057 ens%u_tokenizer!lex.lemma_scan_on. #13443 #3838 #3764 #8401
[mk-app] #14060 u_tokenizer!lex.scan.? #14035 #13880 #8402
[mk-app] #14061 = #14060 #14036
[mk-app] #14064 = #14057 #14061
[mk-app] #14029 not #10679
[mk-app] #14028 or #14029 #14064
[instance] 3674115839 ; 1
[attach-enode] #14057 1
[attach-enode] #13880 1
[attach-enode] #14060 1
[attach-enode] #14061 1
[assign] #14064 justification -1: 1740
[end-of-instance]
[mk-app] #14025 * #363 #3594
[mk-app] #14026 + #289 #3764 #14025
[mk-app] #14023 = #14026 #334
[mk-app] #14024 + #289 #14025 #3764
[inst-discovered] theory-solving 0x0 arith# ; #14026
[mk-app] #14019 = #14026 #14024
[instance] 0x0 #14019
[attach-enode] #14019 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14019 + #14025 #3764
[attach-meaning] #363 arith (- 1)
[mk-app] #14017 + #3594 #1784
[mk-app] #14019 = #14017 #289
[mk-app] #14018 = #14024 #334
[inst-discovered] theory-solving 0x0 arith# ; #14018
[mk-app] #14014 = #14018 #14019
[instance] 0x0 #14014
[attach-enode] #14014 0
[end-of-instance]
[mk-app] #14024 or #13785 #14019
[instance] 2116171513 ; 1
[attach-enode] #14017 1
[attach-enode] #14019 1
[mk-app] #14018 <= #14017 #289
[mk-app] #14014 >= #14017 #289
[assign] #14019 justification -1: 76
[end-of-instance]
[assign] #14018 clause 2261 -2260
[assign] #14014 clause 2262 -2260
[assign] #14057 justification -1: 1860 1856 1854 1853 1965
[eq-expl] #14035 cg (#13443 #3902) ; #3903
[eq-expl] #13880 cg (#3764 #13814) ; #13823
[new-match] 2326694487 #12724 #8368 #8402 #13880 #14035 ; #14060
[new-match] 2199899837 #169 #168 #13814 ; #13823
[mk-app] #14015 u_tokenizer!lex.scan.? #3903 #13823 #8402
[mk-app] #14016 u_tokenizer!lex.rec%scan.? #3903 #13823 #8402 #8364
[mk-app] #13868 = #14015 #14016
[mk-app] #14013 or #13643 #13863 #13794 #13868
[inst-discovered] theory-solving 0x0 basic# ; #14013
[mk-app] #13873 = #14013 #14013
[instance] 0x0 #13873
[attach-enode] #13873 0
[end-of-instance]
[mk-app] #13873 or #13798 #13643 #13863 #13794 #13868
[instance] 2326694487 ; 2
[attach-enode] #13862 2
[attach-enode] #14015 2
[attach-enode] #14016 2
[attach-enode] #13868 2
[end-of-instance]
[mk-app] #13879 or #13617 #13882
[instance] 2199899837 ; 2
[attach-enode] #13881 2
[attach-enode] #13882 2
[assign] #13882 justification -1: 25
[end-of-instance]
[assign] #14061 clause 2258 -2257 -2259
[push] 10
[assign] (not #3364) decision axiom
[assign] (not #13257) clause -1886 1885
[assign] (not #13820) clause -2207 1886 -1846 -2219 -2221
[assign] (not #13830) clause -2210 2207 -2211
[assign] #13825 clause 2208 2210
[assign] #13828 clause 2209 2210
[new-match] 1755287860 #11858 #3908 #13823 #13816 #244 #120 ; #13827
[new-match] 472461204 #6732 #6731 #13823 #13816 ; #13824
[new-match] 1095615642 #2763 #2762 #3697 ; #13821
[new-match] 3572552747 #2770 #2767 #3696 #244 #120 #203 #120 ; #13821 (#3697 #3697) #13900 (#3696 #13861) (#13899 #13861) (#7229 #7229)
[mk-app] #13872 not #6732
[mk-app] #14055 or #13872 #13877
[instance] 472461204 ; 2
[attach-enode] #13874 2
[attach-enode] #5644 2
[attach-enode] #13875 2
[attach-enode] #13876 2
[attach-enode] #13877 2
[assign] #13877 justification -1: 1180
[end-of-instance]
[mk-app] #14056 = #13884 #13250
[mk-app] #14065 not #2763
[mk-app] #14066 or #14065 #14056
[instance] 1095615642 ; 2
[attach-enode] #13884 2
[attach-enode] #14056 2
[assign] #14056 justification -1: 668
[end-of-instance]
[mk-app] #14067 or #13927 #13942
[mk-app] #14068 not #2770
[mk-app] #14069 or #14068 #13927 #13942
[instance] 3572552747 ; 3
[attach-enode] #13941 3
[attach-enode] #13942 3
[assign] #13942 justification -1: 669 2231
[end-of-instance]
[eq-expl] #13875 root
[new-match] 1656893398 #11029 #6617 #13875 ; #13876
[eq-expl] #5644 root
[new-match] 3678045300 #11876 #3981 #13823 #5644 #3903 #244 #120 ; #13875
[new-match] 3774712549 #169 #168 #334 ; #5644
[eq-expl] #13941 cg (#13928 #3697) ; #13821
[eq-expl] #13821 cg (#3697 #13252) ; #13884
[eq-expl] #13884 lit #14056 ; #13250
[new-match] 4245809972 #482 #206 #13941 ; #13942 (#203 #203)
[new-match] 877182954 #210 #206 #13941 ; #13942 (#203 #203)
[mk-app] #14067 or #13649 #13905 #13907
[instance] 1656893398 ; 3
[attach-enode] #13904 3
[attach-enode] #13906 3
[attach-enode] #13907 3
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13913
[mk-app] #14070 = #13913 #13913
[instance] 0x0 #14070
[attach-enode] #14070 0
[end-of-instance]
[mk-app] #14070 not #11876
[mk-app] #14071 or #14070 #13451 #13911 #13863 #13912
[instance] 3678045300 ; 3
[attach-enode] #13910 3
[attach-enode] #13912 3
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14072 * #363 #13916
[mk-app] #14073 = #13916 #334
[inst-discovered] theory-solving 0x0 arith# ; #13917
[mk-app] #14072 = #13917 #14073
[instance] 0x0 #14072
[attach-enode] #14072 0
[end-of-instance]
[mk-app] #14072 or #13617 #14073
[instance] 3774712549 ; 3
[attach-enode] #13916 3
[attach-enode] #14073 3
[assign] #14073 justification -1: 25
[end-of-instance]
[mk-app] #14074 uInv #270 #13971
[mk-app] #14075 or #13970 #14074
[mk-app] #14076 not #482
[mk-app] #14077 or #14076 #13970 #14074
[instance] 4245809972 ; 4
[attach-enode] #13969 4
[attach-enode] #13971 4
[attach-enode] #14074 4
[end-of-instance]
[mk-app] #14075 or #13970 #13979
[mk-app] #14078 not #210
[mk-app] #14079 or #14078 #13970 #13979
[instance] 877182954 ; 4
[attach-enode] #13978 4
[attach-enode] #13979 4
[end-of-instance]
[assign] #13969 justification -1: 2268 2267 2228 2224
[assign] #14074 clause 2275 -2274
[assign] #13979 clause 2276 -2274
[eq-expl] #13971 cg (#13250 #13821) ; #13822
[eq-expl] #13822 lit #13825 ; #13824
[new-match] 2039972352 #11540 #442 #13971 #270 ; #14074
[new-match] 669353760 #169 #168 #13971 ; #13978
[eq-expl] #13978 lit #13979 ; #13250
[new-match] 3954363791 #10995 #470 #13971 ; #13942 (#203 #203) (#13941 #13978)
[mk-app] #14075 or #13999 #14009
[mk-app] #14080 = #14075 #14003
[mk-app] #14081 not #14075
[mk-app] #14082 not #14080
[inst-discovered] theory-solving 0x0 basic# ; #14082
[mk-app] #14081 = #14082 #14082
[instance] 0x0 #14081
[attach-enode] #14081 0
[end-of-instance]
[mk-app] #14081 or #13345 #14082
[instance] 2039972352 ; 5
[attach-enode] #14007 5
[attach-enode] #14008 5
[attach-enode] #14003 5
[assign] (not #14080) justification -1: 58
[end-of-instance]
[assign] #14003 justification -1: 2275 2208 2267
[assign] (not #14075) clause -2279 -2280 2281
[assign] #13998 clause 2277 2279
[assign] (not #14009) clause -2278 2279
[push] 11
[assign] (not #13228) decision axiom
[assign] (not #739) justification -1: -1813
[assign] (not #13264) justification -1: -1813 1953
[assign] (not #13268) justification -1: -1813 1953
[assign] (not #13397) justification -1: -1813 1953
[assign] (not #13401) justification -1: -1813 1953
[push] 12
[assign] (not #432) decision axiom
[assign] (not #155) justification -1: -1816
[assign] (not #13277) justification -1: -1816 1956
[assign] (not #13281) justification -1: -1816 1956
[assign] (not #13408) justification -1: -1816 1956
[assign] (not #13412) justification -1: -1816 1956
[push] 13
[assign] (not #13221) decision axiom
[assign] (not #13239) justification -1: -1819
[assign] (not #13290) justification -1: -1819 1959
[assign] (not #13294) justification -1: -1819 1959
[assign] (not #13419) justification -1: -1819 1959
[assign] (not #13423) justification -1: -1819 1959
[decide-and-or] #13227 #3277
[push] 14
[assign] #3277 decision axiom
[decide-and-or] #639 #684
[push] 15
[assign] (not #1117) decision axiom
[assign] #3579 clause 1864 1866
[assign] (not #3481) clause -1865 1866
[eq-expl] #3593 lit #3586 ; #3594
[eq-expl] #3594 root
[eq-expl] #3587 lit #3578 ; #8401
[new-match] 136049301 #13073 #10584 #3587 #3593 #3902 ; #3481
[mk-app] #14083 req%u_tokenizer!lex.lemma_scan. #13443 #3594 #8401
[mk-app] #14084 >= #3594 #334
[mk-app] #14085 not #14084
[mk-app] #14086 + #3594 #14046
[mk-app] #14087 <= #14086 #334
[mk-app] #14088 not #14087
[mk-app] #14089 or #14085 #14088
[mk-app] #14090 not #14089
[mk-app] #14091 or #10589 #14090
[mk-app] #14092 = #14083 #14091
[mk-app] #14093 not #13073
[mk-app] #14094 or #14093 #14092
[instance] 136049301 ; 1
[attach-enode] #14083 1
[attach-enode] #14086 1
[assign] #14092 justification -1: 1737
[end-of-instance]
[assign] (not #14083) justification -1: -1865 1863 1861 1965
[assign] #14087 clause 2285 1886 -2250 -2261 -1846
[assign] (not #14091) clause -2287 2282 -2288
[assign] #10579 clause 2283 2287
[assign] #14089 clause 2286 2287
[assign] (not #14084) clause -2284 -2286 -2285
[resolve-process] true
[resolve-lit] 6 (not #14014)
[resolve-lit] 7 (not #13810)
[resolve-lit] 7 (not #13790)
[resolve-lit] 0 #14084
[conflict] #14084 (not #13810)
[pop] 7 16
[attach-enode] #13813 0
[attach-enode] #13814 0
[attach-enode] #13815 0
[attach-enode] #13816 0
[attach-enode] #13817 0
[attach-enode] #13818 0
[attach-enode] #13819 0
[attach-enode] #13845 0
[attach-enode] #13846 0
[attach-enode] #13850 0
[attach-enode] #13821 0
[attach-enode] #13822 0
[attach-enode] #13823 0
[attach-enode] #13824 0
[attach-enode] #13825 0
[attach-enode] #13827 0
[attach-enode] #13828 0
[attach-enode] #14032 0
[assign] #14033 clause 2213 -2205 -1844
[attach-enode] #14035 0
[attach-enode] #14036 0
[attach-enode] #14037 0
[attach-enode] #14038 0
[attach-enode] #14058 0
[attach-enode] #14045 0
[attach-enode] #14046 0
[attach-enode] #14047 0
[attach-enode] #14062 0
[attach-enode] #14017 0
[attach-enode] #14086 0
[assign] #3726 axiom
[assign] #14030 axiom
[assign] #14084 clause 2221 -2205
[assign] #3711 clause 1848 -1850
[assign] #13193 clause 1898 -1850
[assign] #13227 clause 1913 -1850
[mk-app] #13844 = #3764 #13814
[attach-meaning] #363 arith (- 1)
[mk-app] #13847 <= #13846 #334
[assign] #13844 justification -1: 1961
[attach-enode] #13844 0
[assign] #13847 justification -1: 2222
[assign] #13848 justification -1: 2222
[mk-app] #13849 = #3872 #14036
[attach-meaning] #363 arith (- 1)
[mk-app] #13852 >= #14058 #334
[assign] #13849 justification -1: 1839 1838 1965
[attach-enode] #13849 0
[assign] #14059 justification -1: 2224
[assign] #13852 justification -1: 2224
[mk-app] #13972 = #3865 #14045
[attach-meaning] #363 arith (- 1)
[mk-app] #13981 >= #14062 #334
[assign] #13972 justification -1: 1965
[attach-enode] #13972 0
[assign] #14063 justification -1: 2226
[assign] #13981 justification -1: 2226
[mk-app] #13982 = #3865 #13817
[attach-meaning] #363 arith (- 1)
[mk-app] #13974 >= #13850 #334
[assign] #13982 justification -1: 1965 1966 1962 1961
[attach-enode] #13982 0
[assign] #13851 justification -1: 2228
[assign] #13974 justification -1: 2228
[new-match] 2116171513 #550 #548 #289 #3764 ; #3594
[new-match] 2212902533 #7286 #7281 #3922 ; #3726
[eq-expl] #3719 root
[new-match] 826179143 #12520 #7315 #3719 #3922 ; #3711
[mk-app] #13997 + #289 #14025 #3764
[inst-discovered] theory-solving 0x0 arith# ; #14026
[mk-app] #14012 = #14026 #13997
[instance] 0x0 #14012
[attach-enode] #14012 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14012 + #14025 #3764
[attach-meaning] #363 arith (- 1)
[mk-app] #14012 = #14017 #289
[mk-app] #14011 = #13997 #334
[inst-discovered] theory-solving 0x0 arith# ; #14011
[mk-app] #13867 = #14011 #14012
[instance] 0x0 #13867
[attach-enode] #13867 0
[end-of-instance]
[mk-app] #13997 or #13785 #14012
[instance] 2116171513 ; 1
[attach-enode] #14012 1
[mk-app] #14011 >= #14017 #289
[assign] #14012 justification -1: 76
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13832
[mk-app] #13867 = #13832 #13832
[instance] 0x0 #13867
[attach-enode] #13867 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13836
[mk-app] #13867 = #13836 #13836
[instance] 0x0 #13867
[attach-enode] #13867 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13838
[mk-app] #13867 = #13838 #13838
[instance] 0x0 #13867
[attach-enode] #13867 0
[end-of-instance]
[mk-app] #13867 not #13838
[inst-discovered] theory-solving 0x0 basic# ; #13841
[mk-app] #13867 = #13841 #13841
[instance] 0x0 #13867
[attach-enode] #13867 0
[end-of-instance]
[mk-app] #13867 not #12520
[mk-app] #14020 or #13867 #13841
[instance] 826179143 ; 1
[attach-enode] #7290 1
[attach-enode] #13811 1
[attach-enode] #13835 1
[attach-enode] #13839 1
[assign] (not #13840) justification -1: 1238
[end-of-instance]
[assign] #14039 clause 2214 -2215 -1845
[assign] #14048 clause 2216 -2217 -1846 -2205 -1845 -1844
[assign] #14018 clause 2219 -2230
[assign] #14011 clause 2231 -2230
[assign] #13839 justification -1: 1848 1961
[assign] (not #13838) clause -2235 -2236 2237
[assign] #13811 clause 2232 2235
[assign] #13832 clause 2212 2235
[assign] #13836 clause 2234 2235
[assign] #347 clause 1897 -2212
[assign] (not #365) clause -1895 -1897 -1898
[assign] #1160 clause 1851 1895
[assign] #3676 clause 1852 1895
[assign] #3669 clause 1853 1895
[assign] #3661 clause 1854 1895
[assign] #3654 clause 1856 1895
[assign] #434 clause 1894 1895
[assign] (not #13256) clause -1862 -1854 -1853 -1856 -2205 -1838 -1894
[assign] #3647 clause 1858 -1854 -2218 -1853 -2216 -2213 -2214 -1856
[assign] (not #13255) clause -1855 -1856
[assign] #1136 clause 1859 -1858
[assign] (not #433) clause -1893 -1859 -1894
[assign] #3640 clause 1860 1893
[assign] #3586 clause 1861 1893
[assign] #3578 clause 1863 1893
[assign] #639 clause 1892 1893
[mk-app] #14021 is #3587
[attach-enode] #14021 0
[mk-app] #14022 is #3653
[attach-enode] #14022 0
[mk-app] #14027 = #3719 #13860
[mk-app] #14019 => #1160 #14027
[inst-discovered] theory-solving 0x0 datatype# ; #3719
[instance] 0 #14019
[end-of-instance]
[attach-enode] #13859 0
[attach-enode] #13860 0
[mk-app] #14027 = #13859 #13861
[new-match] 0 datatype#15 datatype#12 #13859 ; #13860
[instance] 0 #14027
[attach-enode] #13861 0
[end-of-instance]
[assign] (not #13804) justification -1: -1855 1856 2202
[eq-expl] #3704 root
[eq-expl] #7290 root
[new-match] 605875641 #1746 #1743 #3704 #7229 #7289 ; #13811 (#7290 #7290) #3705 (#3704 #3704) #3696 (#7289 #7289) (#7229 #7229) (#3705 #3705)
[eq-expl] #13859 ax ; #13861
[eq-expl] #13861 root
[eq-expl] #3719 unknown ; #13860
[eq-expl] #13860 root
[new-match] 1793823357 #1728 #1724 #13859 #7229 #7289 ; #13811 (#7290 #7290) (#3704 #3704) (#3719 #13860)
[new-match] 3204777225 #1713 #1709 #3704 #7229 #7289 ; #13811 (#7290 #7290)
[new-match] 1678831805 #1702 #1701 #3719 ; #3704
[new-match] 2571206668 #2775 #2774 #3697 ; #3683
[eq-expl] #3668 lit #3669 ; #3838
[eq-expl] #3660 lit #3661 ; #3764
[eq-expl] #3653 lit #3654 ; #8401
[new-match] 3674115839 #10679 #10678 #3653 #3660 #3668 #3902 ; #3640
[new-match] 674221547 #1739 #1734 #3705 #7229 #7289 ; #3696
[mk-app] #14027 has_type #3696 #7229
[mk-app] #14019 or #13812 #14027
[mk-app] #14014 not #1746
[mk-app] #14056 or #14014 #13812 #14027
[instance] 605875641 ; 2
[attach-enode] #14027 2
[assign] #14027 justification -1: 517 2232
[end-of-instance]
[mk-app] #14073 or #4783 #13812 #13854
[instance] 3204777225 ; 2
[attach-enode] #13853 2
[attach-enode] #13854 2
[assign] #13854 justification -1: 513 2232
[end-of-instance]
[mk-app] #14074 Poly%core!option.Option. #13860
[mk-app] #14075 %Poly%core!option.Option. #14074
[mk-app] #14080 = #13860 #14075
[mk-app] #14093 or #13330 #14080
[instance] 1678831805 ; 1
[attach-enode] #14074 1
[attach-enode] #14075 1
[attach-enode] #14080 1
[assign] #14080 justification -1: 512
[end-of-instance]
[mk-app] #14094 = #13869 #13251
[mk-app] #14082 not #2775
[mk-app] #14081 or #14082 #14094
[instance] 2571206668 ; 1
[attach-enode] #13869 1
[attach-enode] #14094 1
[assign] #14094 justification -1: 670
[end-of-instance]
[mk-app] #14078 not #10679
[mk-app] #14079 or #14078 #14064
[instance] 3674115839 ; 1
[attach-enode] #14057 1
[attach-enode] #13880 1
[attach-enode] #14060 1
[attach-enode] #14061 1
[assign] #14064 justification -1: 1740
[end-of-instance]
[mk-app] #14076 not #1739
[mk-app] #14077 or #14076 #13890 #13892
[instance] 674221547 ; 1
[attach-enode] #13889 1
[attach-enode] #13891 1
[attach-enode] #13892 1
[end-of-instance]
[assign] #14057 justification -1: 1860 1856 1854 1853 1965
[assign] #13889 justification -1: 1851 2242 1851
[eq-expl] #3696 root
[new-match] 2172985771 #2782 #2779 #3696 #244 #120 #203 #120 ; #14027 (#7229 #7229) #3697 (#3696 #3696) #3683 (#3697 #13252)
[new-match] 3491131431 #2747 #2743 #3696 #244 #120 #203 #120 ; #14027 (#7229 #7229)
[eq-expl] #14035 cg (#13443 #3902) ; #3903
[eq-expl] #13813 cg (#13435 #3922) ; #3923
[eq-expl] #13814 cg (#13813 #3923) ; #3764
[eq-expl] #13880 cg (#3764 #13814) ; #13823
[eq-expl] #13823 root
[new-match] 2326694487 #12724 #8368 #8402 #13880 #14035 ; #14060
[new-match] 2199899837 #169 #168 #13814 ; #13823
[mk-app] #14072 not #14027
[mk-app] #14070 has_type #3683 #244
[mk-app] #14071 or #14072 #14070
[mk-app] #14067 not #2782
[mk-app] #14068 or #14067 #14072 #14070
[instance] 2172985771 ; 3
[attach-enode] #14070 3
[assign] #14070 justification -1: 671 2240
[end-of-instance]
[mk-app] #14069 Poly%tuple%2. #3697
[mk-app] #14065 = #3696 #14069
[mk-app] #14066 or #14072 #14065
[mk-app] #13872 not #2747
[mk-app] #14055 or #13872 #14072 #14065
[instance] 3491131431 ; 3
[attach-enode] #14069 3
[attach-enode] #14065 3
[assign] #14065 justification -1: 666 2240
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14013
[mk-app] #13879 = #14013 #14013
[instance] 0x0 #13879
[attach-enode] #13879 0
[end-of-instance]
[mk-app] #13879 or #13798 #13643 #13863 #13794 #13868
[instance] 2326694487 ; 2
[attach-enode] #13862 2
[attach-enode] #14015 2
[attach-enode] #14016 2
[attach-enode] #13868 2
[end-of-instance]
[mk-app] #13873 or #13617 #13882
[instance] 2199899837 ; 2
[attach-enode] #13881 2
[attach-enode] #13882 2
[assign] #13882 justification -1: 25
[end-of-instance]
[assign] #14061 clause 2245 -2244 -2246
[assign] #13892 clause 2248 -2247
[eq-expl] #3683 cg (#3697 #13252) ; #13869
[eq-expl] #13869 lit #14094 ; #13251
[new-match] 2017834159 #525 #247 #3683 ; #14070 (#244 #244)
[new-match] 3237750056 #251 #247 #3683 ; #14070 (#244 #244)
[new-match] 2604676044 #2736 #2735 #3697 ; #14069
[eq-expl] #3696 lit #13892 ; #13891
[eq-expl] #3704 lit #13854 ; #13853
[eq-expl] #13853 root
[eq-expl] #14074 cg (#13860 #3719) ; #3704
[eq-expl] #3705 cg (#3704 #14074) ; #14075
[eq-expl] #14075 lit #14080 ; #13860
[eq-expl] #13891 cg (#3705 #13860) ; #13861
[eq-expl] #14069 lit #14065 ; #3696
[new-match] 549305367 #11641 #2754 #13251 #13250 #244 #120 #203 #120 ; #14027 (#7229 #7229) (#3696 #14069) (#3697 #13252)
[mk-app] #14024 or #13933 #13914
[inst-discovered] theory-solving 0x0 basic# ; #14024
[mk-app] #14029 = #14024 #14024
[instance] 0x0 #14029
[attach-enode] #14029 0
[end-of-instance]
[mk-app] #14029 not #525
[mk-app] #14028 or #14029 #13933 #13914
[instance] 2017834159 ; 4
[attach-enode] #13932 4
[attach-enode] #13918 4
[attach-enode] #13914 4
[end-of-instance]
[mk-app] #14024 or #13933 #13887
[mk-app] #13888 not #251
[mk-app] #13883 or #13888 #13933 #13887
[instance] 3237750056 ; 4
[attach-enode] #13895 4
[attach-enode] #13887 4
[end-of-instance]
[assign] #13932 justification -1: 2249 2243
[assign] #13914 clause 2255 -2254
[assign] #13887 clause 2256 -2254
[eq-expl] #13918 cg (#13251 #3683) ; #3675
[new-match] 2650835325 #11183 #454 #13918 ; #13914
[eq-expl] #3682 lit #3676 ; #3675
[new-match] 1908524723 #169 #168 #3682 ; #3571
[eq-expl] #3571 cg (#3682 #13918) ; #13895
[eq-expl] #13895 lit #13887 ; #13251
[new-match] 3031462151 #509 #505 #3682 ; #14070 (#244 #244) (#3683 #3571)
[mk-app] #14024 or #4386 #13996
[instance] 2650835325 ; 5
[attach-enode] #13980 5
[assign] #13996 justification -1: 60
[end-of-instance]
[assign] #13980 justification -1: 2255 2243
[assign] #13995 clause 2264 -2257 -2265
[push] 9
[assign] (not #3364) decision axiom
[assign] (not #13257) clause -1886 1885
[assign] (not #13820) clause -2206 1886 -2207 -2208 -1846
[assign] #14087 clause 2220 1886 -2217 -2219 -1846
[assign] (not #13830) clause -2211 2206 -2212
[assign] #13825 clause 2209 2211
[assign] #13828 clause 2210 2211
[eq-expl] #13815 cg (#13813 #3923) ; #3911
[eq-expl] #13816 cg (#13815 #3902) ; #3903
[new-match] 1755287860 #11858 #3908 #13823 #13816 #244 #120 ; #13827
[new-match] 472461204 #6732 #6731 #13823 #13816 ; #13824
[new-match] 1095615642 #2763 #2762 #3697 ; #13821
[new-match] 3572552747 #2770 #2767 #3696 #244 #120 #203 #120 ; #13821 (#3697 #3697) #14027 (#3696 #13861) (#3696 #13861) (#7229 #7229)
[mk-app] #13878 not #6732
[mk-app] #13909 or #13878 #13877
[instance] 472461204 ; 2
[attach-enode] #13874 2
[attach-enode] #5644 2
[attach-enode] #13875 2
[attach-enode] #13876 2
[attach-enode] #13877 2
[assign] #13877 justification -1: 1180
[end-of-instance]
[mk-app] #13902 = #13884 #13250
[mk-app] #14006 not #2763
[mk-app] #14010 or #14006 #13902
[instance] 1095615642 ; 2
[attach-enode] #13884 2
[attach-enode] #13902 2
[assign] #13902 justification -1: 668
[end-of-instance]
[mk-app] #13975 or #13927 #13942
[mk-app] #13962 not #2770
[mk-app] #13958 or #13962 #13927 #13942
[instance] 3572552747 ; 3
[attach-enode] #13926 3
[attach-enode] #13928 3
[mk-app] #13963 tuple%2./tuple%2/?0 #13928
[mk-app] #13951 tuple%2./tuple%2/?1 #13928
[mk-app] #13952 tuple%2./tuple%2 #13963 #13951
[attach-enode] #13963 3
[attach-enode] #13951 3
[attach-enode] #13952 3
[mk-app] #13945 tuple%2./tuple%2/?0 #13952
[mk-app] #13944 = #13963 #13945
[new-match] 0 datatype#220 datatype#217 #13963 #13951 ; #13952
[instance] 0 #13944
[attach-enode] #13945 3
[end-of-instance]
[mk-app] #13944 tuple%2./tuple%2/?1 #13952
[mk-app] #13858 = #13951 #13944
[new-match] 0 datatype#223 datatype#217 #13963 #13951 ; #13952
[instance] 0 #13858
[attach-enode] #13944 3
[end-of-instance]
[attach-enode] #13941 3
[attach-enode] #13942 3
[end-of-instance]
[assign] #13926 justification -1: 2240 2248 2242 1851
[eq-expl] #13875 root
[new-match] 1656893398 #11029 #6617 #13875 ; #13876
[eq-expl] #5644 root
[new-match] 3678045300 #11876 #3981 #13823 #5644 #3903 #244 #120 ; #13875
[new-match] 3774712549 #169 #168 #334 ; #5644
[mk-app] #13975 or #13649 #13905 #13907
[instance] 1656893398 ; 3
[attach-enode] #13904 3
[attach-enode] #13906 3
[attach-enode] #13907 3
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13913
[mk-app] #13858 = #13913 #13913
[instance] 0x0 #13858
[attach-enode] #13858 0
[end-of-instance]
[mk-app] #13858 not #11876
[mk-app] #13856 or #13858 #13451 #13911 #13863 #13912
[instance] 3678045300 ; 3
[attach-enode] #13910 3
[attach-enode] #13912 3
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #13842 * #363 #13916
[mk-app] #13843 = #13916 #334
[inst-discovered] theory-solving 0x0 arith# ; #13917
[mk-app] #13842 = #13917 #13843
[instance] 0x0 #13842
[attach-enode] #13842 0
[end-of-instance]
[mk-app] #13842 or #13617 #13843
[instance] 3774712549 ; 3
[attach-enode] #13916 3
[attach-enode] #13843 3
[assign] #13843 justification -1: 25
[end-of-instance]
[assign] #13942 clause 2269 -2268
[eq-expl] #13928 cg (#13859 #3696) ; #3697
[eq-expl] #13941 cg (#13928 #3697) ; #13821
[eq-expl] #13821 cg (#3697 #13252) ; #13884
[eq-expl] #13884 lit #13902 ; #13250
[new-match] 4245809972 #482 #206 #13941 ; #13942 (#203 #203)
[new-match] 877182954 #210 #206 #13941 ; #13942 (#203 #203)
[mk-app] #14095 uInv #270 #13971
[mk-app] #14096 or #13970 #14095
[mk-app] #14097 not #482
[mk-app] #14098 or #14097 #13970 #14095
[instance] 4245809972 ; 4
[attach-enode] #13969 4
[attach-enode] #13971 4
[attach-enode] #14095 4
[end-of-instance]
[mk-app] #14096 or #13970 #13979
[mk-app] #14099 not #210
[mk-app] #14100 or #14099 #13970 #13979
[instance] 877182954 ; 4
[attach-enode] #13978 4
[attach-enode] #13979 4
[end-of-instance]
[assign] #13969 justification -1: 2269 2267 2248 2242 1851
[assign] #14095 clause 2276 -2275
[assign] #13979 clause 2277 -2275
[eq-expl] #13971 cg (#13250 #13821) ; #13822
[eq-expl] #13822 lit #13825 ; #13824
[eq-expl] #13824 root
[new-match] 2039972352 #11540 #442 #13971 #270 ; #14095
[new-match] 669353760 #169 #168 #13971 ; #13978
[eq-expl] #13978 lit #13979 ; #13250
[new-match] 3954363791 #10995 #470 #13971 ; #13942 (#203 #203) (#13941 #13978)
[mk-app] #14096 or #13999 #14009
[mk-app] #14101 = #14096 #14003
[mk-app] #14102 not #14096
[mk-app] #14103 not #14101
[inst-discovered] theory-solving 0x0 basic# ; #14103
[mk-app] #14102 = #14103 #14103
[instance] 0x0 #14102
[attach-enode] #14102 0
[end-of-instance]
[mk-app] #14102 or #13345 #14103
[instance] 2039972352 ; 5
[attach-enode] #14007 5
[attach-enode] #14008 5
[attach-enode] #14003 5
[assign] (not #14101) justification -1: 58
[end-of-instance]
[assign] #14003 justification -1: 2276 2209 2267
[assign] (not #14096) clause -2280 -2281 2282
[assign] #13998 clause 2278 2280
[assign] (not #14009) clause -2279 2280
[push] 10
[assign] (not #13228) decision axiom
[assign] (not #739) justification -1: -1813
[assign] (not #13264) justification -1: -1813 1953
[assign] (not #13268) justification -1: -1813 1953
[assign] (not #13397) justification -1: -1813 1953
[assign] (not #13401) justification -1: -1813 1953
[push] 11
[assign] (not #432) decision axiom
[assign] (not #155) justification -1: -1816
[assign] (not #13277) justification -1: -1816 1956
[assign] (not #13281) justification -1: -1816 1956
[assign] (not #13408) justification -1: -1816 1956
[assign] (not #13412) justification -1: -1816 1956
[push] 12
[assign] (not #13221) decision axiom
[assign] (not #13239) justification -1: -1819
[assign] (not #13290) justification -1: -1819 1959
[assign] (not #13294) justification -1: -1819 1959
[assign] (not #13419) justification -1: -1819 1959
[assign] (not #13423) justification -1: -1819 1959
[decide-and-or] #13227 #3277
[push] 13
[assign] #3277 decision axiom
[decide-and-or] #639 #684
[push] 14
[assign] (not #1117) decision axiom
[assign] #3579 clause 1864 1866
[assign] (not #3481) clause -1865 1866
[eq-expl] #3593 lit #3586 ; #3594
[eq-expl] #3587 lit #3578 ; #8401
[new-match] 136049301 #13073 #10584 #3587 #3593 #3902 ; #3481
[mk-app] #14104 not #13073
[mk-app] #14105 or #14104 #14092
[instance] 136049301 ; 1
[attach-enode] #14083 1
[assign] (not #14089) justification -1: 2220 2221
[assign] #14091 justification -1: -2285
[assign] #14092 justification -1: 1737
[end-of-instance]
[assign] #14083 clause 2283 -2287
[resolve-lit] 0 (not #14083)
[resolve-process] #14083
[resolve-lit] 0 #3481
[resolve-lit] 6 (not #3578)
[resolve-lit] 6 (not #3586)
[resolve-process] (not #14083)
[resolve-lit] 0 (not #14092)
[resolve-lit] 0 (not #14091)
[resolve-process] (not #14092)
[resolve-process] (not #14091)
[resolve-lit] 0 #14089
[resolve-process] #14089
[resolve-lit] 5 (not #14087)
[resolve-lit] 6 (not #14084)
[conflict] #3481 (not #3578) (not #3586) (not #14087) (not #14084)
[pop] 5 15
[assign] #3481 clause 1865 -2220 -1861 -1863 -2221
[assign] #1117 clause 1866 -1865
[assign] (not #636) clause -1891 -1866 -1892
[assign] #3570 clause 1867 1891
[assign] #3564 clause 1868 1891
[assign] #696 clause 1888 1891
[assign] #710 clause 1890 1891
[new-match] 136049301 #13073 #10584 #3587 #3593 #3902 ; #3481
[eq-expl] #3563 root
[new-match] 75245469 #12552 #7388 #3563 #3571 #244 #120 ; #3564
[new-match] 1587267544 #13089 #10618 #3587 #3593 #3902 ; #3570
[mk-app] #14104 not #13073
[mk-app] #14105 or #14104 #14092
[instance] 136049301 ; 1
[attach-enode] #14083 1
[assign] (not #14089) justification -1: 2220 2221
[assign] #14091 justification -1: -2285
[assign] #14092 justification -1: 1737
[end-of-instance]
[mk-app] #14106 has_type #3563 #135
[mk-app] #14107 not #14106
[mk-app] #14108 u_tokenizer!lex.ClassShim.it.? #120 #244 #13254
[mk-app] #14109 u_tokenizer!text.is_blank.? #14108
[mk-app] #14110 = #3556 #14109
[mk-app] #14111 not #14110
[mk-app] #14112 or #14107 #14111
[mk-app] #14113 ens%u_tokenizer!lex.ClassShim.whitespace_. #120 #244 #13254 #3563
[mk-app] #14114 = #14112 #14113
[mk-app] #14115 not #14114
[mk-app] #14116 u_tokenizer!lex.ClassShim.it.? #120 #244 #13251
[mk-app] #14117 u_tokenizer!text.is_blank.? #14116
[mk-app] #14118 = #3556 #14117
[mk-app] #14119 not #14118
[inst-discovered] theory-solving 0x0 basic# ; #14119
[mk-app] #14120 = #14119 #14119
[instance] 0x0 #14120
[attach-enode] #14120 0
[end-of-instance]
[mk-app] #14120 or #14107 #14119
[mk-app] #14121 ens%u_tokenizer!lex.ClassShim.whitespace_. #120 #244 #13251 #3563
[mk-app] #14122 = #14120 #14121
[mk-app] #14123 not #14120
[mk-app] #14124 not #14122
[inst-discovered] theory-solving 0x0 basic# ; #14124
[mk-app] #14123 = #14124 #14124
[instance] 0x0 #14123
[attach-enode] #14123 0
[end-of-instance]
[mk-app] #14123 not #12552
[mk-app] #14125 or #14123 #14124
[instance] 75245469 ; 1
[attach-enode] #14106 1
[attach-enode] #14116 1
[attach-enode] #14117 1
[attach-enode] #14121 1
[assign] (not #14122) justification -1: 1248
[end-of-instance]
[mk-app] #14126 I #3594
[mk-app] #14127 u_tokenizer!lex.scan.? #14035 #14126 #8402
[mk-app] #14128 I #14127
[mk-app] #14129 vstd!seq.Seq.index.? #120 #244 #14035 #14128
[mk-app] #14130 u_tokenizer!lex.within.? #8402 #14129
[mk-app] #14131 not #14130
[mk-app] #14132 * #363 #14127
[mk-app] #14133 + #14045 #14132
[mk-app] #14134 <= #14133 #334
[mk-app] #14135 or #14134 #14131
[mk-app] #14136 not #14135
[mk-app] #14137 i$!skolem_user_u_tokenizer__lex__lemma_scan_0!18 #8401 #3594 #13443
[mk-app] #14138 vstd!seq.Seq.index.? #120 #244 #14035 #14137
[mk-app] #14139 u_tokenizer!lex.within.? #8402 #14138
[mk-app] #14140 %I #14137
[mk-app] #14141 * #363 #14140
[mk-app] #14142 + #14127 #14141
[mk-app] #14143 <= #14142 #334
[mk-app] #14144 + #3594 #14141
[mk-app] #14145 <= #14144 #334
[mk-app] #14146 not #14145
[mk-app] #14147 has_type #14137 #184
[mk-app] #14148 not #14147
[mk-app] #14149 or #14148 #14146 #14143 #14139
[mk-app] #14150 not #14149
[mk-app] #14151 >= #14133 #334
[mk-app] #14152 not #14151
[mk-app] #14153 + #3594 #14132
[mk-app] #14154 <= #14153 #334
[mk-app] #14155 not #14154
[mk-app] #14156 ens%u_tokenizer!lex.lemma_scan. #13443 #3594 #8401
[mk-app] #14157 or #14156 #14155 #14152 #14150 #14136
[mk-app] #14158 not #14157
[mk-app] #14159 vstd!seq.Seq.index.? #120 #244 #14035 #33
[mk-app] #14160 pattern #14159
[mk-app] #14161 + #186 #14025
[mk-app] #14162 >= #14161 #334
[mk-app] #14163 not #14162
[mk-app] #14164 + #186 #14132
[mk-app] #14165 >= #14164 #334
[mk-app] #14166 u_tokenizer!lex.within.? #8402 #14159
[mk-app] #14167 or #192 #14163 #14165 #14166
[mk-quant] #14168 user_u_tokenizer__lex__lemma_scan_0 1 #14160 #14167
[attach-var-names] #14168 (|i$| ; |Poly|)
[mk-app] #14169 not #14168
[mk-app] #14170 or #14155 #14152 #14169 #14136
[mk-app] #14171 not #14170
[mk-app] #14172 not #14156
[mk-app] #14173 or #14172 #14171
[mk-app] #14174 not #14173
[mk-app] #14175 or #14174 #14158
[mk-app] #14176 not #14175
[inst-discovered] theory-solving 0x0 basic# ; #14167
[mk-app] #14177 = #14167 #14167
[instance] 0x0 #14177
[attach-enode] #14177 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14135
[mk-app] #14177 = #14135 #14135
[instance] 0x0 #14177
[attach-enode] #14177 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14170
[mk-app] #14177 = #14170 #14170
[instance] 0x0 #14177
[attach-enode] #14177 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14149
[mk-app] #14177 = #14149 #14149
[instance] 0x0 #14177
[attach-enode] #14177 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14157
[mk-app] #14177 = #14157 #14157
[instance] 0x0 #14177
[attach-enode] #14177 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14175
[mk-app] #14177 = #14175 #14175
[instance] 0x0 #14177
[attach-enode] #14177 0
[end-of-instance]
[mk-app] #14177 not #13089
[mk-app] #14178 or #14177 #14176
[instance] 1587267544 ; 1
[attach-enode] #14156 1
[attach-enode] #14126 1
[attach-enode] #14127 1
[attach-enode] #14132 1
[attach-enode] #14153 1
[attach-enode] #14133 1
[attach-enode] #14128 1
[attach-enode] #14129 1
[attach-enode] #14130 1
[attach-enode] #14137 1
[attach-enode] #14147 1
[attach-enode] #14140 1
[attach-enode] #14141 1
[attach-enode] #14144 1
[attach-enode] #14142 1
[attach-enode] #14138 1
[attach-enode] #14139 1
[assign] (not #14175) justification -1: 1738
[end-of-instance]
[assign] #14083 clause 2283 -2287
[assign] #14173 clause 2302 2309
[assign] #14157 clause 2308 2309
[assign] #14121 justification -1: 1868 2256 1852 2243
[assign] #14156 justification -1: 1867 1863 1861 1965
[assign] (not #14120) clause -2291 -2292 2293
[assign] (not #14170) clause -2301 -2294 -2302
[assign] #14106 clause 2288 2291
[assign] #14118 clause 2290 2291
[assign] #14154 clause 2295 2301
[assign] #14151 clause 2296 2301
[assign] #14168 clause 2297 2301
[assign] #14135 clause 2300 2301
[new-match] 2901573588 #183 #179 #3563 ; #14106 (#135 #135)
[new-match] 3605618164 #7343 #7340 #13251 #244 #120 ; #14116
[new-match] 3053543861 #9051 #9050 #13251 ; #14116 (#120 #120) (#244 #244)
[eq-expl] #14126 root
[new-match] 2351219576 #12724 #8368 #8402 #14126 #14035 ; #14127
[new-match] 684371347 #169 #168 #3594 ; #14126
[new-match] 3211091859 #14168 #14160 #13823 ; #13827 (#120 #120) (#244 #244) (#13816 #14035)
[mk-app] #14179 B #3556
[mk-app] #14180 = #3563 #14179
[mk-app] #14181 or #14107 #14180
[mk-app] #14182 not #183
[mk-app] #14183 or #14182 #14107 #14180
[instance] 2901573588 ; 2
[attach-enode] #14179 2
[attach-enode] #14180 2
[assign] #14180 justification -1: 27 2288
[end-of-instance]
[mk-app] #14184 has_type #14108 #244
[mk-app] #14185 or #13937 #14184
[mk-app] #14186 has_type #14116 #244
[mk-app] #14187 or #13933 #14186
[mk-app] #14188 not #7343
[mk-app] #14189 or #14188 #13933 #14186
[instance] 3605618164 ; 2
[attach-enode] #14186 2
[assign] #14186 justification -1: 1240 2254
[end-of-instance]
[mk-app] #14187 = #14108 #13254
[mk-app] #14190 = #14116 #13251
[mk-app] #14191 not #9051
[mk-app] #14192 or #14191 #14190
[instance] 3053543861 ; 2
[attach-enode] #14190 2
[assign] #14190 justification -1: 1465
[end-of-instance]
[mk-app] #14193 has_type #14126 #184
[mk-app] #14194 not #14193
[mk-app] #14195 u_tokenizer!lex.scan.? #3903 #14126 #8402
[mk-app] #14196 u_tokenizer!lex.rec%scan.? #3903 #14126 #8402 #8364
[mk-app] #14197 = #14195 #14196
[mk-app] #14198 or #13643 #14194 #13794 #14197
[inst-discovered] theory-solving 0x0 basic# ; #14198
[mk-app] #14199 = #14198 #14198
[instance] 0x0 #14199
[attach-enode] #14199 0
[end-of-instance]
[mk-app] #14199 or #13798 #13643 #14194 #13794 #14197
[instance] 2351219576 ; 2
[attach-enode] #14193 2
[attach-enode] #14195 2
[attach-enode] #14196 2
[attach-enode] #14197 2
[end-of-instance]
[mk-app] #14200 %I #14126
[mk-app] #14201 = #3594 #14200
[mk-app] #14202 or #13617 #14201
[instance] 684371347 ; 2
[attach-enode] #14200 2
[attach-enode] #14201 2
[assign] #14201 justification -1: 25
[end-of-instance]
[mk-app] #14203 %I #13823
[mk-app] #14204 + #14203 #14025
[mk-app] #14205 >= #14204 #334
[mk-app] #14206 not #14205
[mk-app] #14207 + #14203 #14132
[mk-app] #14208 >= #14207 #334
[mk-app] #14209 vstd!seq.Seq.index.? #120 #244 #14035 #13823
[mk-app] #14210 u_tokenizer!lex.within.? #8402 #14209
[mk-app] #14211 or #13863 #14206 #14208 #14210
[mk-app] #14212 + #14025 #14203
[inst-discovered] theory-solving 0x0 arith# ; #14204
[mk-app] #14213 = #14204 #14212
[instance] 0x0 #14213
[attach-enode] #14213 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14213 * #363 #14203
[mk-app] #14214 + #3594 #14213
[mk-app] #14215 <= #14214 #334
[mk-app] #14216 >= #14212 #334
[inst-discovered] theory-solving 0x0 arith# ; #14216
[mk-app] #14217 = #14216 #14215
[instance] 0x0 #14217
[attach-enode] #14217 0
[end-of-instance]
[mk-app] #14212 not #14215
[mk-app] #14216 + #14132 #14203
[inst-discovered] theory-solving 0x0 arith# ; #14207
[mk-app] #14217 = #14207 #14216
[instance] 0x0 #14217
[attach-enode] #14217 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14217 + #14127 #14213
[mk-app] #14218 <= #14217 #334
[mk-app] #14219 >= #14216 #334
[inst-discovered] theory-solving 0x0 arith# ; #14219
[mk-app] #14220 = #14219 #14218
[instance] 0x0 #14220
[attach-enode] #14220 0
[end-of-instance]
[mk-app] #14216 or #13863 #14212 #14218 #14210
[inst-discovered] theory-solving 0x0 basic# ; #14216
[mk-app] #14219 = #14216 #14216
[instance] 0x0 #14219
[attach-enode] #14219 0
[end-of-instance]
[mk-app] #14219 or #14169 #13863 #14212 #14218 #14210
[instance] 3211091859 ; 2
[attach-enode] #14203 2
[attach-enode] #14213 2
[attach-enode] #14214 2
[attach-enode] #14217 2
[attach-enode] #14209 2
[attach-enode] #14210 2
[end-of-instance]
[mk-app] #14216 = #3764 #14203
[attach-meaning] #363 arith (- 1)
[mk-app] #14220 + #3764 #14213
[mk-app] #14221 <= #14220 #334
[mk-app] #14222 >= #14220 #334
[assign] #14216 justification -1: 2253 1961
[attach-enode] #14216 0
[attach-enode] #14220 0
[assign] #14221 justification -1: 2319
[assign] #14222 justification -1: 2319
[eq-expl] #3556 root
[new-match] 2296941121 #164 #163 #3556 ; #14179
[eq-expl] #3563 lit #14180 ; #14179
[eq-expl] #14179 root
[new-match] 3667285938 #138 #137 #3556 ; #14106 (#135 #135) (#3563 #14179)
[mk-app] #14223 %B #14179
[mk-app] #14224 = #3556 #14223
[mk-app] #14225 not #164
[mk-app] #14226 or #14225 #14224
[instance] 2296941121 ; 3
[attach-enode] #14223 3
[assign] #14224 justification -1: 24
[end-of-instance]
[assign] (not #14215) clause -2316 -2321 -2231
[assign] (not #14218) clause -2317 -2295 -2231 -2321
[push] 10
[assign] (not #13228) decision axiom
[assign] (not #739) justification -1: -1813
[assign] (not #13264) justification -1: -1813 1953
[assign] (not #13268) justification -1: -1813 1953
[assign] (not #13397) justification -1: -1813 1953
[assign] (not #13401) justification -1: -1813 1953
[push] 11
[assign] (not #432) decision axiom
[assign] (not #155) justification -1: -1816
[assign] (not #13277) justification -1: -1816 1956
[assign] (not #13281) justification -1: -1816 1956
[assign] (not #13408) justification -1: -1816 1956
[assign] (not #13412) justification -1: -1816 1956
[push] 12
[assign] (not #13221) decision axiom
[assign] (not #13239) justification -1: -1819
[assign] (not #13290) justification -1: -1819 1959
[assign] (not #13294) justification -1: -1819 1959
[assign] (not #13419) justification -1: -1819 1959
[assign] (not #13423) justification -1: -1819 1959
[decide-and-or] #13227 #3277
[push] 13
[assign] #3277 decision axiom
[assign] #3450 clause 1879 -1889 -1890
[assign] #1047 clause 1880 -1879
[decide-and-or] #696 #683
[push] 14
[assign] (not #726) decision axiom
[assign] #3556 clause 1869 1882
[assign] (not #3557) clause -1870 1882
[assign] #3543 clause 1871 1882
[assign] #3528 clause 1872 1882
[assign] #3521 clause 1873 1882
[assign] #3466 clause 1874 1882
[assign] #737 clause 1881 1882
[assign] #14117 clause 2289 -1869 -2290
[assign] #14223 clause 2322 -1869 -2323
[assign] (not #1782) clause -1883 1870 -1869
[assign] (not #1084) clause -1877 -1881 -1880
[assign] #719 clause 1887 1883
[assign] #3467 clause 1875 1877
[assign] (not #3459) clause -1876 1877
[mk-app] #14227 = #3675 #6750
[mk-app] #14228 <= #3675 #6750
[mk-app] #14229 >= #3675 #6750
[attach-enode] #14227 0
[eq-expl] #3542 root
[eq-expl] #1623 root
[eq-expl] #11178 root
[new-match] 628233173 #55 #51 #1623 #120 #3542 ; #3543 (#11178 #11178) #3535 (#3542 #3542)
[new-match] 3056961563 #62 #59 #1623 #120 #3542 ; #3543 (#11178 #11178) #3473 (#3542 #3542)
[eq-expl] #3529 lit #3521 ; #3542
[new-match] 4210648913 #7227 #7222 #3529 ; #3459
[mk-app] #14230 has_type #3535 #1623
[mk-app] #14231 or #746 #14230
[mk-app] #14232 not #55
[mk-app] #14233 or #14232 #746 #14230
[instance] 628233173 ; 1
[attach-enode] #14230 1
[assign] #14230 justification -1: 5 1871
[end-of-instance]
[mk-app] #14234 has_type #3473 #1623
[mk-app] #14235 or #746 #14234
[mk-app] #14236 not #62
[mk-app] #14237 or #14236 #746 #14234
[instance] 3056961563 ; 1
[attach-enode] #14234 1
[assign] #14234 justification -1: 6 1871
[end-of-instance]
[mk-app] #14238 req%u_tokenizer!lex.impl&%1.next. #3542
[mk-app] #14239 u_tokenizer!lex.impl&%1.wf.? #3535
[mk-app] #14240 or #7224 #14239
[mk-app] #14241 = #14238 #14240
[mk-app] #14242 not #7227
[mk-app] #14243 or #14242 #14241
[instance] 4210648913 ; 1
[attach-enode] #14238 1
[attach-enode] #14239 1
[assign] #14241 justification -1: 1235
[end-of-instance]
[assign] (not #14227) justification -1: -1870 1852
[assign] (not #14238) justification -1: -1876 1873
[eq-expl] #3535 root
[new-match] 2037044517 #1633 #1629 #3535 ; #14230 (#1623 #1623)
[eq-expl] #3473 root
[new-match] 4145997470 #1633 #1629 #3473 ; #14234 (#1623 #1623)
[mk-app] #14244 not #14230
[mk-app] #14245 Poly%u_tokenizer!lex.CIter. #3536
[mk-app] #14246 = #3535 #14245
[mk-app] #14247 or #14244 #14246
[mk-app] #14248 not #1633
[mk-app] #14249 or #14248 #14244 #14246
[instance] 2037044517 ; 2
[attach-enode] #14245 2
[attach-enode] #14246 2
[assign] #14246 justification -1: 501 2327
[end-of-instance]
[mk-app] #14250 not #14234
[mk-app] #14251 Poly%u_tokenizer!lex.CIter. #3474
[mk-app] #14252 = #3473 #14251
[mk-app] #14253 or #14250 #14252
[mk-app] #14254 or #14248 #14250 #14252
[instance] 4145997470 ; 2
[attach-enode] #14251 2
[attach-enode] #14252 2
[assign] #14252 justification -1: 501 2328
[end-of-instance]
[assign] (not #14240) clause -2332 2329 -2333
[assign] #7218 clause 2330 2332
[assign] (not #14239) clause -2331 2332
[resolve-lit] 0 #14239
[resolve-process] (not #14239)
[resolve-lit] 0 (not #14246)
[resolve-lit] 0 (not #3528)
[resolve-process] #14239
[resolve-lit] 0 #14240
[resolve-process] #14240
[resolve-lit] 0 #14238
[resolve-lit] 0 (not #14241)
[resolve-process] (not #14246)
[resolve-lit] 0 (not #14230)
[resolve-process] #14238
[resolve-lit] 0 #3459
[resolve-lit] 0 (not #3521)
[resolve-process] (not #14241)
[resolve-process] (not #14230)
[resolve-lit] 0 (not #3543)
[resolve-process] #3459
[resolve-lit] 0 #1084
[resolve-process] #1084
[resolve-lit] 0 (not #737)
[resolve-lit] 1 (not #1047)
[resolve-process] (not #737)
[resolve-lit] 0 #726
[resolve-process] (not #3521)
[resolve-process] (not #3528)
[resolve-process] (not #3543)
[conflict] #726 (not #1047)
[pop] 1 15
[assign] #726 clause 1882 -1880
[assign] (not #719) clause -1887 -1882 -1888
[assign] #1782 clause 1883 1887
[assign] #3377 clause 1884 1887
[push] 14
[assign] (not #3556) decision axiom
[assign] (not #14117) clause -2289 1869 -2290
[assign] (not #14223) clause -2322 1869 -2323
[decide-and-or] #13388 #13381
[push] 15
[assign] (not #13380) decision axiom
[assign] #13376 clause 1943 1945
[assign] #13378 clause 1944 1945
[assign] (not #13382) clause -1946 -1944
[assign] #13384 clause 1947 -1944
[assign] #13386 clause 1948 1946
[decide-and-or] #13634 #13643
[push] 16
[assign] (not #13642) decision axiom
[assign] (not #13450) justification -1: -2086 717 715
[new-match] 2277648693 #11105 #11104 #3903 ; #13450 (#1463 #3204)
[new-match] 3880594274 #1513 #1512 #3902 ; #13450 (#1463 #3204) (#3903 #3903)
[mk-app] #14227 has_type #14035 #3204
[mk-app] #14228 not #1513
[mk-app] #14229 or #14228 #14227
[instance] 3880594274 ; 2
[attach-enode] #14227 2
[assign] #14227 justification -1: 478
[end-of-instance]
[resolve-lit] 0 (not #14227)
[resolve-process] #14227
[resolve-lit] 0 #13450
[resolve-process] (not #14227)
[conflict] #13450
[pop] 1 17
[assign] #13450 axiom
[assign] #13642 justification -1: 1967 717 715
[new-match] 2277648693 #11105 #11104 #3903 ; #13450 (#1463 #3204)
[new-match] 3880594274 #1513 #1512 #3902 ; #13450 (#1463 #3204) (#3903 #3903)
[assign] #13646 clause 2087 -2086
[eq-expl] #6613 root
[new-match] 752338805 #6591 #6590 #6613 #3903 ; #13645
[eq-expl] #6612 root
[new-match] 1566333725 #11027 #6605 #6612 #3903 ; #13645 (#6613 #6613)
[mk-app] #14228 u_tokenizer!text.rec%blen.? #3903 #6587
[mk-app] #14229 = #13645 #14228
[mk-app] #14248 not #6591
[mk-app] #14254 or #14248 #14229
[instance] 752338805 ; 3
[attach-enode] #6587 3
[attach-enode] #14228 3
[attach-enode] #14229 3
[assign] #14229 justification -1: 1159
[end-of-instance]
[mk-app] #14249 = #3865 #334
[mk-app] #14242 vstd!seq_lib.impl&%0.drop_last.? #120 #244 #3903
[mk-app] #14243 u_tokenizer!text.rec%blen.? #14242 #6612
[mk-app] #14236 vstd!seq.Seq.last.? #120 #244 #3903
[mk-app] #14237 u_tokenizer!text.clen.? #14236
[mk-app] #14232 Add #14243 #14237
[mk-app] #14233 if #14249 #334 #14232
[mk-app] #14255 = #13645 #14233
[mk-app] #14256 or #13643 #14255
[mk-app] #14257 not #11027
[mk-app] #14258 or #14257 #13643 #14255
[instance] 1566333725 ; 3
[mk-app] #14259 = #14233 #334
[mk-app] #14260 = #14232 #14233
[attach-enode] #14233 3
[attach-enode] #14249 3
[mk-app] #14261 <= #3865 #334
[attach-enode] #14242 3
[attach-enode] #14243 3
[attach-enode] #14236 3
[attach-enode] #14237 3
[attach-enode] #14232 3
[attach-enode] #14259 3
[attach-enode] #14260 3
[attach-enode] #14255 3
[assign] #14255 justification -1: 1160 2086
[end-of-instance]
[eq-expl] #6587 root
[new-match] 4069469454 #6591 #6590 #6587 #3903 ; #14228
[decide-and-or] #13799 #13792
[push] 16
[assign] (not #13791) decision axiom
[new-match] 204478095 #194 #190 #3839 ; #13791 (#184 #184)
[new-match] 3212635275 #460 #459 #3838 ; #13791 (#184 #184) (#3839 #3839)
[mk-app] #14262 not #460
[mk-app] #14263 or #14262 #13791
[instance] 3212635275 ; 2
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13791
[conflict] #13791
[pop] 1 17
[assign] #13791 axiom
[new-match] 204478095 #194 #190 #3839 ; #13791 (#184 #184)
[new-match] 3212635275 #460 #459 #3838 ; #13791 (#184 #184) (#3839 #3839)
[decide-and-or] #13799 #13794
[push] 16
[assign] (not #13793) decision axiom
[eq-expl] #2107 root
[new-match] 3619766557 #2117 #2113 #8402 ; #13793 (#2107 #2107)
[new-match] 2087446730 #2120 #2119 #8401 ; #13793 (#2107 #2107) (#8402 #8402)
[mk-app] #14262 not #2120
[mk-app] #14263 or #14262 #13793
[instance] 2087446730 ; 2
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13793
[conflict] #13793
[pop] 1 17
[assign] #13793 axiom
[assign] #13796 clause 2200 -2199 -2086 -2198
[new-match] 3619766557 #2117 #2113 #8402 ; #13793 (#2107 #2107)
[new-match] 2087446730 #2120 #2119 #8401 ; #13793 (#2107 #2107) (#8402 #8402)
[eq-expl] #8364 root
[new-match] 3610188359 #8330 #8329 #8364 #8402 #3839 #3903 ; #13795
[eq-expl] #8363 root
[new-match] 2394611561 #12717 #8347 #8363 #8402 #3839 #3903 ; #13795 (#8364 #8364)
[mk-app] #14262 u_tokenizer!lex.rec%scan.? #3903 #3839 #8402 #6587
[mk-app] #14263 = #13795 #14262
[mk-app] #14264 not #8330
[mk-app] #14265 or #14264 #14263
[instance] 3610188359 ; 2
[attach-enode] #14262 2
[attach-enode] #14263 2
[assign] #14263 justification -1: 1415
[end-of-instance]
[mk-app] #14266 >= #13805 #334
[mk-app] #14267 not #14266
[mk-app] #14268 + #13805 #13456
[mk-app] #14269 >= #14268 #334
[mk-app] #14270 vstd!seq.Seq.index.? #120 #244 #3903 #3839
[mk-app] #14271 u_tokenizer!lex.within.? #8402 #14270
[mk-app] #14272 not #14271
[mk-app] #14273 or #14267 #14269 #14272
[mk-app] #14274 Add #13805 #289
[mk-app] #14275 I #14274
[mk-app] #14276 u_tokenizer!lex.rec%scan.? #3903 #14275 #8402 #8363
[mk-app] #14277 if #14273 #13805 #14276
[mk-app] #14278 = #13795 #14277
[mk-app] #14279 or #13643 #13792 #13794 #14278
[mk-app] #14280 + #13456 #13805
[inst-discovered] theory-solving 0x0 arith# ; #14268
[mk-app] #14281 = #14268 #14280
[instance] 0x0 #14281
[attach-enode] #14281 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14281 * #363 #13805
[mk-app] #14282 + #3865 #14281
[mk-app] #14283 <= #14282 #334
[mk-app] #14284 >= #14280 #334
[inst-discovered] theory-solving 0x0 arith# ; #14284
[mk-app] #14285 = #14284 #14283
[instance] 0x0 #14285
[attach-enode] #14285 0
[end-of-instance]
[mk-app] #14280 or #14267 #14283 #14272
[inst-discovered] theory-solving 0x0 basic# ; #14280
[mk-app] #14284 = #14280 #14280
[instance] 0x0 #14284
[attach-enode] #14284 0
[end-of-instance]
[mk-app] #14284 if #14280 #13805 #14276
[mk-app] #14285 = #13795 #14284
[mk-app] #14286 or #13643 #13792 #13794 #14285
[inst-discovered] theory-solving 0x0 basic# ; #14286
[mk-app] #14287 = #14286 #14286
[instance] 0x0 #14287
[attach-enode] #14287 0
[end-of-instance]
[mk-app] #14287 not #12717
[mk-app] #14288 or #14287 #13643 #13792 #13794 #14285
[instance] 2394611561 ; 2
[mk-app] #14289 = #13805 #14284
[mk-app] #14290 = #14276 #14284
[attach-enode] #14284 2
[attach-enode] #14281 2
[attach-enode] #14282 2
[attach-enode] #14270 2
[attach-enode] #14271 2
[attach-enode] #14274 2
[attach-enode] #14275 2
[attach-enode] #14276 2
[attach-enode] #14289 2
[attach-enode] #14290 2
[attach-enode] #14285 2
[assign] #14285 justification -1: 1416 2086 2198 2199
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14286 + #3838 #14281
[mk-app] #14291 <= #14286 #334
[mk-app] #14292 >= #14286 #334
[attach-enode] #14286 0
[assign] #14291 justification -1: 2203
[assign] #14292 justification -1: 2203
[new-match] 4119463057 #8330 #8329 #6587 #8402 #3839 #3903 ; #14262
[assign] #14266 clause 2331 -2338 -1840 -2197
[assign] (not #14283) clause -2332 -2339 1886 -2205 -1844 -1846
[push] 16
[assign] #14021 decision axiom
[assign] #14022 justification -1: 2238 1863 1856
[mk-app] #14293 = #3587 #8729
[mk-app] #14294 => #14021 #14293
[inst-discovered] theory-solving 0x0 datatype# ; #3587
[instance] 0 #14294
[end-of-instance]
[attach-enode] #8729 0
[mk-app] #14293 = #3653 #8729
[mk-app] #14294 => #14022 #14293
[inst-discovered] theory-solving 0x0 datatype# ; #3653
[instance] 0 #14294
[end-of-instance]
[resolve-process] true
[resolve-lit] 8 (not #3578)
[resolve-lit] 0 (not #14021)
[conflict] (not #14021) (not #3578)
[pop] 8 17
[attach-enode] #14203 0
[attach-enode] #14213 0
[attach-enode] #14214 0
[attach-enode] #14220 0
[attach-enode] #14126 0
[attach-enode] #14127 0
[attach-enode] #14132 0
[attach-enode] #14153 0
[attach-enode] #14217 0
[attach-enode] #14281 0
[attach-enode] #14286 0
[attach-enode] #14282 0
[assign] #13450 axiom
[assign] #13791 axiom
[assign] #13793 axiom
[assign] (not #14021) clause -2238 -1863
[assign] #13642 justification -1: 1967 717 715
[assign] (not #14022) justification -1: -2238 1863 1856
[attach-meaning] #363 arith (- 1)
[assign] #14291 justification -1: 2203
[assign] #14292 justification -1: 2203
[mk-app] #13902 = #3764 #14203
[attach-meaning] #363 arith (- 1)
[mk-app] #13963 <= #14220 #334
[assign] #13902 justification -1: 2253 1961
[attach-enode] #13902 0
[assign] #13963 justification -1: 2274
[assign] #14222 justification -1: 2274
[eq-expl] #14126 root
[new-match] 2351219576 #12724 #8368 #8402 #14126 #14035 ; #14127
[new-match] 684371347 #169 #168 #3594 ; #14126
[new-match] 2277648693 #11105 #11104 #3903 ; #13450 (#1463 #3204)
[new-match] 3880594274 #1513 #1512 #3902 ; #13450 (#1463 #3204) (#3903 #3903)
[new-match] 204478095 #194 #190 #3839 ; #13791 (#184 #184)
[new-match] 3212635275 #460 #459 #3838 ; #13791 (#184 #184) (#3839 #3839)
[new-match] 3619766557 #2117 #2113 #8402 ; #13793 (#2107 #2107)
[new-match] 2087446730 #2120 #2119 #8401 ; #13793 (#2107 #2107) (#8402 #8402)
[inst-discovered] theory-solving 0x0 basic# ; #14198
[mk-app] #13951 = #14198 #14198
[instance] 0x0 #13951
[attach-enode] #13951 0
[end-of-instance]
[mk-app] #13951 or #13798 #13643 #14194 #13794 #14197
[instance] 2351219576 ; 2
[attach-enode] #14193 2
[attach-enode] #14195 2
[attach-enode] #14196 2
[attach-enode] #14197 2
[end-of-instance]
[mk-app] #13952 or #13617 #14201
[instance] 684371347 ; 2
[attach-enode] #14200 2
[attach-enode] #14201 2
[assign] #14201 justification -1: 25
[end-of-instance]
[assign] #13646 clause 2087 -2086
[assign] #13796 clause 2200 -2086 -2199 -2198
[assign] #14266 clause 2270 -2271 -2197 -1840
[assign] (not #14215) clause -2266 -2267 -2231
[new-match] 752338805 #6591 #6590 #6613 #3903 ; #13645
[new-match] 1566333725 #11027 #6605 #6612 #3903 ; #13645 (#6613 #6613)
[new-match] 3610188359 #8330 #8329 #8364 #8402 #3839 #3903 ; #13795
[new-match] 2394611561 #12717 #8347 #8363 #8402 #3839 #3903 ; #13795 (#8364 #8364)
[mk-app] #13945 not #6591
[mk-app] #13944 or #13945 #14229
[instance] 752338805 ; 3
[attach-enode] #6587 3
[attach-enode] #14228 3
[attach-enode] #14229 3
[assign] #14229 justification -1: 1159
[end-of-instance]
[mk-app] #13843 not #11027
[mk-app] #14095 or #13843 #13643 #14255
[instance] 1566333725 ; 3
[mk-app] #14096 = #14233 #334
[mk-app] #14101 = #14232 #14233
[attach-enode] #14233 3
[attach-enode] #14249 3
[mk-app] #14119 <= #3865 #334
[attach-enode] #14242 3
[attach-enode] #14243 3
[attach-enode] #14236 3
[attach-enode] #14237 3
[attach-enode] #14232 3
[attach-enode] #14096 3
[attach-enode] #14101 3
[attach-enode] #14255 3
[assign] #14255 justification -1: 1160 2086
[end-of-instance]
[mk-app] #14120 not #8330
[mk-app] #14122 or #14120 #14263
[instance] 3610188359 ; 2
[attach-enode] #14262 2
[attach-enode] #14263 2
[assign] #14263 justification -1: 1415
[end-of-instance]
[mk-app] #14190 + #13456 #13805
[inst-discovered] theory-solving 0x0 arith# ; #14268
[mk-app] #14216 = #14268 #14190
[instance] 0x0 #14216
[attach-enode] #14216 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14216 >= #14190 #334
[inst-discovered] theory-solving 0x0 arith# ; #14216
[mk-app] #14221 = #14216 #14283
[instance] 0x0 #14221
[attach-enode] #14221 0
[end-of-instance]
[mk-app] #14190 or #14267 #14283 #14272
[inst-discovered] theory-solving 0x0 basic# ; #14190
[mk-app] #14216 = #14190 #14190
[instance] 0x0 #14216
[attach-enode] #14216 0
[end-of-instance]
[mk-app] #14216 if #14190 #13805 #14276
[mk-app] #14221 = #13795 #14216
[mk-app] #14261 or #13643 #13792 #13794 #14221
[inst-discovered] theory-solving 0x0 basic# ; #14261
[mk-app] #14259 = #14261 #14261
[instance] 0x0 #14259
[attach-enode] #14259 0
[end-of-instance]
[mk-app] #14259 not #12717
[mk-app] #14260 or #14259 #13643 #13792 #13794 #14221
[instance] 2394611561 ; 2
[mk-app] #14280 = #13805 #14216
[mk-app] #14284 = #14216 #14276
[attach-enode] #14216 2
[attach-enode] #14270 2
[attach-enode] #14271 2
[attach-enode] #14274 2
[attach-enode] #14275 2
[attach-enode] #14276 2
[attach-enode] #14280 2
[attach-enode] #14284 2
[attach-enode] #14221 2
[assign] #14221 justification -1: 1416 2086 2198 2199
[end-of-instance]
[eq-expl] #6587 root
[new-match] 4069469454 #6591 #6590 #6587 #3903 ; #14228
[new-match] 4119463057 #8330 #8329 #6587 #8402 #3839 #3903 ; #14262
[push] 9
[assign] (not #3364) decision axiom
[assign] (not #13257) clause -1886 1885
[assign] (not #13820) clause -2206 1886 -2207 -2208 -1846
[assign] #14087 clause 2220 1886 -2217 -2219 -1846
[assign] (not #14283) clause -2272 1886 -2273 -2205 -1846 -1844
[assign] (not #13830) clause -2211 2206 -2212
[assign] #3481 clause 1865 -2220 -1861 -1863 -2221
[assign] #13825 clause 2209 2211
[assign] #13828 clause 2210 2211
[assign] #1117 clause 1866 -1865
[assign] (not #636) clause -1891 -1866 -1892
[assign] #3570 clause 1867 1891
[assign] #3564 clause 1868 1891
[assign] #696 clause 1888 1891
[assign] #710 clause 1890 1891
[assign] (not #14119) clause -2281 -2197 -1845 -1846 -1844 -2205 -1840
[eq-expl] #3563 root
[new-match] 75245469 #12552 #7388 #3563 #3571 #244 #120 ; #3564
[new-match] 1587267544 #13089 #10618 #3587 #3593 #3902 ; #3570
[new-match] 1755287860 #11858 #3908 #13823 #13816 #244 #120 ; #13827
[new-match] 472461204 #6732 #6731 #13823 #13816 ; #13824
[new-match] 1095615642 #2763 #2762 #3697 ; #13821
[new-match] 3572552747 #2770 #2767 #3696 #244 #120 #203 #120 ; #13821 (#3697 #3697) #14027 (#3696 #13861) (#3696 #13861) (#7229 #7229)
[mk-app] #14261 not #14118
[inst-discovered] theory-solving 0x0 basic# ; #14261
[mk-app] #14289 = #14261 #14261
[instance] 0x0 #14289
[attach-enode] #14289 0
[end-of-instance]
[mk-app] #14289 or #14107 #14261
[mk-app] #14290 = #14289 #14121
[mk-app] #14285 not #14289
[mk-app] #14287 not #14290
[inst-discovered] theory-solving 0x0 basic# ; #14287
[mk-app] #14285 = #14287 #14287
[instance] 0x0 #14285
[attach-enode] #14285 0
[end-of-instance]
[mk-app] #14285 not #12552
[mk-app] #14288 or #14285 #14287
[instance] 75245469 ; 1
[attach-enode] #14106 1
[attach-enode] #14116 1
[attach-enode] #14117 1
[attach-enode] #14121 1
[assign] (not #14290) justification -1: 1248
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14167
[mk-app] #14264 = #14167 #14167
[instance] 0x0 #14264
[attach-enode] #14264 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14170
[mk-app] #14264 = #14170 #14170
[instance] 0x0 #14264
[attach-enode] #14264 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14149
[mk-app] #14264 = #14149 #14149
[instance] 0x0 #14264
[attach-enode] #14264 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14157
[mk-app] #14264 = #14157 #14157
[instance] 0x0 #14264
[attach-enode] #14264 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14175
[mk-app] #14264 = #14175 #14175
[instance] 0x0 #14264
[attach-enode] #14264 0
[end-of-instance]
[mk-app] #14264 not #13089
[mk-app] #14265 or #14264 #14176
[instance] 1587267544 ; 1
[attach-enode] #14156 1
[attach-enode] #14133 1
[attach-enode] #14128 1
[attach-enode] #14129 1
[attach-enode] #14130 1
[attach-enode] #14137 1
[attach-enode] #14147 1
[attach-enode] #14140 1
[attach-enode] #14141 1
[attach-enode] #14144 1
[attach-enode] #14142 1
[attach-enode] #14138 1
[attach-enode] #14139 1
[assign] (not #14175) justification -1: 1738
[end-of-instance]
[mk-app] #14257 not #6732
[mk-app] #14258 or #14257 #13877
[instance] 472461204 ; 2
[attach-enode] #13874 2
[attach-enode] #5644 2
[attach-enode] #13875 2
[attach-enode] #13876 2
[attach-enode] #13877 2
[assign] #13877 justification -1: 1180
[end-of-instance]
[mk-app] #14248 = #13884 #13250
[mk-app] #14254 not #2763
[mk-app] #14212 or #14254 #14248
[instance] 1095615642 ; 2
[attach-enode] #13884 2
[attach-enode] #14248 2
[assign] #14248 justification -1: 668
[end-of-instance]
[mk-app] #14225 or #13927 #13942
[mk-app] #14226 not #2770
[mk-app] #14219 or #14226 #13927 #13942
[instance] 3572552747 ; 3
[attach-enode] #13926 3
[attach-enode] #13928 3
[mk-app] #14202 tuple%2./tuple%2/?0 #13928
[mk-app] #14199 tuple%2./tuple%2/?1 #13928
[mk-app] #14191 tuple%2./tuple%2 #14202 #14199
[attach-enode] #14202 3
[attach-enode] #14199 3
[attach-enode] #14191 3
[mk-app] #14192 tuple%2./tuple%2/?0 #14191
[mk-app] #14188 = #14202 #14192
[new-match] 0 datatype#220 datatype#217 #14202 #14199 ; #14191
[instance] 0 #14188
[attach-enode] #14192 3
[end-of-instance]
[mk-app] #14188 tuple%2./tuple%2/?1 #14191
[mk-app] #14189 = #14199 #14188
[new-match] 0 datatype#223 datatype#217 #14202 #14199 ; #14191
[instance] 0 #14189
[attach-enode] #14188 3
[end-of-instance]
[attach-enode] #13941 3
[attach-enode] #13942 3
[end-of-instance]
[assign] (not #14249) clause -2280 2281
[assign] #14173 clause 2304 2311
[assign] #14157 clause 2310 2311
[assign] #14101 clause 2283 2280
[assign] #14121 justification -1: 1868 2256 1852 2243
[assign] #14156 justification -1: 1867 1863 1861 1965
[assign] #13926 justification -1: 2240 2248 2242 1851
[eq-expl] #13875 root
[new-match] 1656893398 #11029 #6617 #13875 ; #13876
[eq-expl] #5644 root
[new-match] 3678045300 #11876 #3981 #13823 #5644 #3903 #244 #120 ; #13875
[new-match] 3774712549 #169 #168 #334 ; #5644
[eq-expl] #14243 root
[eq-expl] #14237 root
[new-match] 3494986088 #550 #548 #14237 #14243 ; #14232
[eq-expl] #14236 root
[new-match] 3053442765 #6562 #6543 #14236 ; #14237
[eq-expl] #14242 root
[new-match] 3697019562 #6591 #6590 #6612 #14242 ; #14243
[new-match] 1845190231 #6583 #6574 #3903 #244 #120 ; #14236
[new-match] 1713789080 #6575 #6574 #3903 #244 #120 ; #14236
[new-match] 1346551866 #6527 #6518 #3903 #244 #120 ; #14242
[new-match] 534836843 #6519 #6518 #3903 #244 #120 ; #14242
[mk-app] #14225 or #13649 #13905 #13907
[instance] 1656893398 ; 3
[attach-enode] #13904 3
[attach-enode] #13906 3
[attach-enode] #13907 3
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13913
[mk-app] #14189 = #13913 #13913
[instance] 0x0 #14189
[attach-enode] #14189 0
[end-of-instance]
[mk-app] #14189 not #11876
[mk-app] #14182 or #14189 #13451 #13911 #13863 #13912
[instance] 3678045300 ; 3
[attach-enode] #13910 3
[attach-enode] #13912 3
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14183 * #363 #13916
[mk-app] #14177 = #13916 #334
[inst-discovered] theory-solving 0x0 arith# ; #13917
[mk-app] #14183 = #13917 #14177
[instance] 0x0 #14183
[attach-enode] #14183 0
[end-of-instance]
[mk-app] #14183 or #13617 #14177
[instance] 3774712549 ; 3
[attach-enode] #13916 3
[attach-enode] #14177 3
[assign] #14177 justification -1: 25
[end-of-instance]
[mk-app] #14178 * #363 #14232
[mk-app] #14124 + #14237 #14243 #14178
[mk-app] #14123 = #14124 #334
[mk-app] #14125 + #14178 #14237 #14243
[inst-discovered] theory-solving 0x0 arith# ; #14124
[mk-app] #14104 = #14124 #14125
[instance] 0x0 #14104
[attach-enode] #14104 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14104 * #363 #14237
[attach-meaning] #363 arith (- 1)
[mk-app] #14105 * #363 #14243
[mk-app] #14103 + #14232 #14104 #14105
[mk-app] #14102 = #14103 #334
[mk-app] #14099 = #14125 #334
[inst-discovered] theory-solving 0x0 arith# ; #14099
[mk-app] #14100 = #14099 #14102
[instance] 0x0 #14100
[attach-enode] #14100 0
[end-of-instance]
[mk-app] #14125 or #13785 #14102
[instance] 3494986088 ; 4
[attach-enode] #14104 4
[attach-enode] #14105 4
[attach-enode] #14103 4
[attach-enode] #14102 4
[mk-app] #14099 <= #14103 #334
[mk-app] #14100 >= #14103 #334
[assign] #14102 justification -1: 76
[end-of-instance]
[mk-app] #14097 %I #14236
[mk-app] #14098 uClip #280 #14097
[mk-app] #13842 >= #14098 #287
[mk-app] #13858 >= #14098 #6533
[mk-app] #13856 >= #14098 #278
[mk-app] #13975 if #13856 #6538 #6537
[mk-app] #13962 if #13858 #13975 #6535
[mk-app] #13958 if #13842 #13962 #289
[mk-app] #14006 = #14237 #13958
[mk-app] #14010 not #6562
[mk-app] #13878 or #14010 #14006
[instance] 3053442765 ; 4
[mk-app] #13909 = #13958 #13962
[mk-app] #14293 = #13958 #289
[attach-enode] #13958 4
[attach-enode] #14097 4
[attach-enode] #14098 4
[mk-app] #14294 = #13962 #13975
[mk-app] #14295 = #13962 #6535
[attach-enode] #13962 4
[mk-app] #14296 = #13975 #6538
[mk-app] #14297 = #13975 #6537
[attach-enode] #13975 4
[attach-enode] #6538 4
[attach-enode] #6537 4
[attach-enode] #14296 4
[attach-enode] #14297 4
[attach-enode] #6535 4
[attach-enode] #14294 4
[attach-enode] #14295 4
[attach-enode] #13909 4
[attach-enode] #14293 4
[attach-enode] #14006 4
[assign] #14006 justification -1: 1152
[end-of-instance]
[mk-app] #14298 u_tokenizer!text.rec%blen.? #14242 #6587
[mk-app] #14299 = #14243 #14298
[mk-app] #14300 or #13945 #14299
[instance] 3697019562 ; 4
[attach-enode] #14298 4
[attach-enode] #14299 4
[assign] #14299 justification -1: 1159
[end-of-instance]
[mk-app] #14301 has_type #14236 #244
[mk-app] #14302 or #13451 #14301
[mk-app] #14303 not #6583
[mk-app] #14304 or #14303 #13451 #14301
[instance] 1845190231 ; 4
[attach-enode] #14301 4
[assign] #14301 justification -1: 1157 1967
[end-of-instance]
[mk-app] #14305 Sub #3865 #289
[mk-app] #14306 I #14305
[mk-app] #14307 vstd!seq.Seq.index.? #120 #244 #3903 #14306
[mk-app] #14308 = #14236 #14307
[mk-app] #14309 not #6575
[mk-app] #14310 or #14309 #14308
[instance] 1713789080 ; 4
[attach-enode] #14305 4
[attach-enode] #14306 4
[attach-enode] #14307 4
[attach-enode] #14308 4
[assign] #14308 justification -1: 1156
[end-of-instance]
[mk-app] #14311 has_type #14242 #1463
[mk-app] #14312 or #13451 #14311
[mk-app] #14313 not #6527
[mk-app] #14314 or #14313 #13451 #14311
[instance] 1346551866 ; 4
[attach-enode] #14311 4
[assign] #14311 justification -1: 1149 1967
[end-of-instance]
[mk-app] #14315 vstd!seq.Seq.subrange.? #120 #244 #3903 #5644 #14306
[mk-app] #14316 = #14242 #14315
[mk-app] #14317 not #6519
[mk-app] #14318 or #14317 #14316
[instance] 534836843 ; 4
[attach-enode] #14315 4
[attach-enode] #14316 4
[assign] #14316 justification -1: 1148
[end-of-instance]
[assign] (not #14289) clause -2294 -2295 2296
[assign] (not #14170) clause -2303 -2297 -2304
[assign] #13942 clause 2315 -2314
[assign] #14099 clause 2322 -2321
[assign] #14100 clause 2323 -2321
[assign] #14106 clause 2291 2294
[assign] #14118 clause 2293 2294
[assign] #14154 clause 2268 2303
[assign] #14151 clause 2298 2303
[assign] #14168 clause 2299 2303
[assign] #14135 clause 2302 2303
[assign] (not #14218) clause -2269 -2268 -2267 -2231
[mk-app] #14319 = #13626 #14232
[attach-meaning] #363 arith (- 1)
[mk-app] #14320 + #13626 #14178
[mk-app] #14321 <= #14320 #334
[mk-app] #14322 >= #14320 #334
[assign] #14319 justification -1: 2283 2284 2087 1962
[attach-enode] #14319 0
[attach-enode] #14178 0
[attach-enode] #14320 0
[assign] #14321 justification -1: 2339
[assign] #14322 justification -1: 2339
[eq-expl] #280 root
[eq-expl] #14097 root
[new-match] 1868059754 #11154 #358 #14097 #280 ; #14098
[eq-expl] #14242 lit #14316 ; #14315
[eq-expl] #14315 root
[new-match] 3620716430 #6591 #6590 #6587 #14242 ; #14298
[eq-expl] #14236 lit #14308 ; #14307
[eq-expl] #14307 root
[new-match] 658052399 #525 #247 #14236 ; #14301 (#244 #244)
[new-match] 3842657828 #251 #247 #14236 ; #14301 (#244 #244)
[new-match] 3779243209 #11105 #11104 #14242 ; #14311 (#1463 #3204)
[eq-expl] #13928 cg (#13859 #3696) ; #3697
[eq-expl] #13941 cg (#13928 #3697) ; #13821
[eq-expl] #13821 cg (#3697 #13252) ; #13884
[eq-expl] #13884 lit #14248 ; #13250
[new-match] 4245809972 #482 #206 #13941 ; #13942 (#203 #203)
[new-match] 877182954 #210 #206 #13941 ; #13942 (#203 #203)
[new-match] 2901573588 #183 #179 #3563 ; #14106 (#135 #135)
[eq-expl] #14306 root
[new-match] 2055970076 #14168 #14160 #14306 ; #14307 (#120 #120) (#244 #244) (#3903 #14035)
[new-match] 2997572347 #11858 #3908 #14306 #3903 #244 #120 ; #14307
[eq-expl] #14305 root
[new-match] 2863383361 #169 #168 #14305 ; #14306
[new-match] 2354417931 #565 #557 #289 #3865 ; #14305
[new-match] 1450839493 #11876 #3981 #14306 #5644 #3903 #244 #120 ; #14315
[new-match] 3605618164 #7343 #7340 #13251 #244 #120 ; #14116
[new-match] 3053543861 #9051 #9050 #13251 ; #14116 (#120 #120) (#244 #244)
[new-match] 3211091859 #14168 #14160 #13823 ; #13827 (#120 #120) (#244 #244) (#13816 #14035)
[mk-app] #14323 >= #14098 #334
[mk-app] #14324 not #14323
[mk-app] #14325 * #363 #281
[mk-app] #14326 + #14098 #14325
[mk-app] #14327 >= #14326 #334
[mk-app] #14328 >= #14097 #334
[mk-app] #14329 not #14328
[mk-app] #14330 + #14097 #14325
[mk-app] #14331 >= #14330 #334
[mk-app] #14332 = #14097 #14098
[mk-app] #14333 or #14329 #14331 #14332
[mk-app] #14334 not #14333
[mk-app] #14335 or #14324 #14327 #14334
[mk-app] #14336 not #14335
[mk-app] #14337 + #14325 #14098
[inst-discovered] theory-solving 0x0 arith# ; #14326
[mk-app] #14338 = #14326 #14337
[instance] 0x0 #14338
[attach-enode] #14338 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14338 * #363 #14098
[mk-app] #14339 + #281 #14338
[mk-app] #14340 <= #14339 #334
[mk-app] #14341 >= #14337 #334
[inst-discovered] theory-solving 0x0 arith# ; #14341
[mk-app] #14342 = #14341 #14340
[instance] 0x0 #14342
[attach-enode] #14342 0
[end-of-instance]
[mk-app] #14337 + #14325 #14097
[inst-discovered] theory-solving 0x0 arith# ; #14330
[mk-app] #14341 = #14330 #14337
[instance] 0x0 #14341
[attach-enode] #14341 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14341 * #363 #14097
[mk-app] #14342 + #281 #14341
[mk-app] #14343 <= #14342 #334
[mk-app] #14344 >= #14337 #334
[inst-discovered] theory-solving 0x0 arith# ; #14344
[mk-app] #14345 = #14344 #14343
[instance] 0x0 #14345
[attach-enode] #14345 0
[end-of-instance]
[mk-app] #14337 or #14329 #14343 #14332
[inst-discovered] theory-solving 0x0 basic# ; #14337
[mk-app] #14344 = #14337 #14337
[instance] 0x0 #14344
[attach-enode] #14344 0
[end-of-instance]
[mk-app] #14344 not #14337
[mk-app] #14345 or #14324 #14340 #14344
[inst-discovered] theory-solving 0x0 basic# ; #14345
[mk-app] #14346 = #14345 #14345
[instance] 0x0 #14346
[attach-enode] #14346 0
[end-of-instance]
[mk-app] #14346 not #14345
[mk-app] #14347 not #11154
[mk-app] #14348 or #14347 #14346
[instance] 1868059754 ; 5
[attach-enode] #14338 5
[attach-enode] #14339 5
[attach-enode] #14341 5
[attach-enode] #14342 5
[attach-enode] #14332 5
[attach-meaning] #363 arith (- 1)
[mk-app] #14349 + #14097 #14338
[mk-app] #14350 <= #14349 #334
[mk-app] #14351 >= #14349 #334
[attach-enode] #14349 5
[assign] (not #14345) justification -1: 55
[end-of-instance]
[mk-app] #14352 has_type #14307 #244
[mk-app] #14353 not #14352
[mk-app] #14354 %I #14307
[mk-app] #14355 charInv #14354
[mk-app] #14356 or #14353 #14355
[inst-discovered] theory-solving 0x0 basic# ; #14356
[mk-app] #14357 = #14356 #14356
[instance] 0x0 #14357
[attach-enode] #14357 0
[end-of-instance]
[mk-app] #14357 or #14029 #14353 #14355
[instance] 658052399 ; 5
[attach-enode] #14352 5
[attach-enode] #14354 5
[attach-enode] #14355 5
[end-of-instance]
[mk-app] #14358 I #14354
[mk-app] #14359 = #14307 #14358
[mk-app] #14360 or #14353 #14359
[mk-app] #14361 or #13888 #14353 #14359
[instance] 3842657828 ; 5
[attach-enode] #14358 5
[attach-enode] #14359 5
[end-of-instance]
[mk-app] #14362 has_type #14315 #3204
[mk-app] #14363 not #14362
[mk-app] #14364 %Poly%vstd!seq.Seq<char.>. #14315
[mk-app] #14365 Poly%vstd!seq.Seq<char.>. #14364
[mk-app] #14366 = #14315 #14365
[mk-app] #14367 or #14363 #14366
[mk-app] #14368 not #11105
[mk-app] #14369 or #14368 #14363 #14366
[instance] 3779243209 ; 5
[attach-enode] #14362 5
[attach-enode] #14364 5
[attach-enode] #14365 5
[attach-enode] #14366 5
[end-of-instance]
[mk-app] #14370 uInv #270 #13971
[mk-app] #14371 or #13970 #14370
[mk-app] #14372 not #482
[mk-app] #14373 or #14372 #13970 #14370
[instance] 4245809972 ; 4
[attach-enode] #13969 4
[attach-enode] #13971 4
[attach-enode] #14370 4
[end-of-instance]
[mk-app] #14371 or #13970 #13979
[mk-app] #14374 not #210
[mk-app] #14375 or #14374 #13970 #13979
[instance] 877182954 ; 4
[attach-enode] #13978 4
[attach-enode] #13979 4
[end-of-instance]
[mk-app] #14371 not #183
[mk-app] #14376 or #14371 #14107 #14180
[instance] 2901573588 ; 2
[attach-enode] #14179 2
[attach-enode] #14180 2
[assign] #14180 justification -1: 27 2291
[end-of-instance]
[mk-app] #14377 has_type #14306 #184
[mk-app] #14378 not #14377
[mk-app] #14379 %I #14306
[mk-app] #14380 + #14379 #14025
[mk-app] #14381 >= #14380 #334
[mk-app] #14382 not #14381
[mk-app] #14383 + #14379 #14132
[mk-app] #14384 >= #14383 #334
[mk-app] #14385 vstd!seq.Seq.index.? #120 #244 #14035 #14306
[mk-app] #14386 u_tokenizer!lex.within.? #8402 #14385
[mk-app] #14387 or #14378 #14382 #14384 #14386
[mk-app] #14388 + #14025 #14379
[inst-discovered] theory-solving 0x0 arith# ; #14380
[mk-app] #14389 = #14380 #14388
[instance] 0x0 #14389
[attach-enode] #14389 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14389 * #363 #14379
[mk-app] #14390 + #3594 #14389
[mk-app] #14391 <= #14390 #334
[mk-app] #14392 >= #14388 #334
[inst-discovered] theory-solving 0x0 arith# ; #14392
[mk-app] #14393 = #14392 #14391
[instance] 0x0 #14393
[attach-enode] #14393 0
[end-of-instance]
[mk-app] #14388 not #14391
[mk-app] #14392 + #14132 #14379
[inst-discovered] theory-solving 0x0 arith# ; #14383
[mk-app] #14393 = #14383 #14392
[instance] 0x0 #14393
[attach-enode] #14393 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14393 + #14127 #14389
[mk-app] #14394 <= #14393 #334
[mk-app] #14395 >= #14392 #334
[inst-discovered] theory-solving 0x0 arith# ; #14395
[mk-app] #14396 = #14395 #14394
[instance] 0x0 #14396
[attach-enode] #14396 0
[end-of-instance]
[mk-app] #14392 or #14378 #14388 #14394 #14386
[inst-discovered] theory-solving 0x0 basic# ; #14392
[mk-app] #14395 = #14392 #14392
[instance] 0x0 #14395
[attach-enode] #14395 0
[end-of-instance]
[mk-app] #14395 or #14169 #14378 #14388 #14394 #14386
[instance] 2055970076 ; 5
[attach-enode] #14377 5
[attach-enode] #14379 5
[attach-enode] #14389 5
[attach-enode] #14390 5
[attach-enode] #14393 5
[attach-enode] #14385 5
[attach-enode] #14386 5
[end-of-instance]
[mk-app] #14392 = #14305 #14379
[mk-app] #14396 or #13617 #14392
[instance] 2863383361 ; 5
[attach-enode] #14392 5
[assign] #14392 justification -1: 25
[end-of-instance]
[mk-app] #14397 + #289 #13456 #14305
[mk-app] #14398 = #14397 #334
[attach-meaning] #363 arith (- 1)
[mk-app] #14399 + #13456 #14305
[attach-meaning] #363 arith (- 1)
[mk-app] #14400 * #363 #14305
[mk-app] #14401 + #3865 #14400
[mk-app] #14399 = #14401 #289
[inst-discovered] theory-solving 0x0 arith# ; #14398
[mk-app] #14402 = #14398 #14399
[instance] 0x0 #14402
[attach-enode] #14402 0
[end-of-instance]
[mk-app] #14402 or #13461 #14399
[instance] 2354417931 ; 5
[attach-enode] #14400 5
[attach-enode] #14401 5
[attach-enode] #14399 5
[mk-app] #14403 <= #14401 #289
[mk-app] #14404 >= #14401 #289
[assign] #14399 justification -1: 77
[end-of-instance]
[mk-app] #14405 or #13933 #14186
[mk-app] #14406 not #7343
[mk-app] #14407 or #14406 #13933 #14186
[instance] 3605618164 ; 2
[attach-enode] #14186 2
[assign] #14186 justification -1: 1240 2254
[end-of-instance]
[mk-app] #14405 = #14116 #13251
[mk-app] #14408 not #9051
[mk-app] #14409 or #14408 #14405
[instance] 3053543861 ; 2
[attach-enode] #14405 2
[assign] #14405 justification -1: 1465
[end-of-instance]
[mk-app] #14410 + #14025 #14203
[inst-discovered] theory-solving 0x0 arith# ; #14204
[mk-app] #14411 = #14204 #14410
[instance] 0x0 #14411
[attach-enode] #14411 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14411 >= #14410 #334
[inst-discovered] theory-solving 0x0 arith# ; #14411
[mk-app] #14412 = #14411 #14215
[instance] 0x0 #14412
[attach-enode] #14412 0
[end-of-instance]
[mk-app] #14410 not #14215
[mk-app] #14411 + #14132 #14203
[inst-discovered] theory-solving 0x0 arith# ; #14207
[mk-app] #14412 = #14207 #14411
[instance] 0x0 #14412
[attach-enode] #14412 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14412 >= #14411 #334
[inst-discovered] theory-solving 0x0 arith# ; #14412
[mk-app] #14413 = #14412 #14218
[instance] 0x0 #14413
[attach-enode] #14413 0
[end-of-instance]
[mk-app] #14411 or #13863 #14410 #14218 #14210
[inst-discovered] theory-solving 0x0 basic# ; #14411
[mk-app] #14412 = #14411 #14411
[instance] 0x0 #14412
[attach-enode] #14412 0
[end-of-instance]
[mk-app] #14412 or #14169 #13863 #14410 #14218 #14210
[instance] 3211091859 ; 2
[attach-enode] #14209 2
[attach-enode] #14210 2
[end-of-instance]
[assign] #14323 clause 2342 2350
[assign] (not #14340) clause -2343 2350
[assign] #14337 clause 2349 2350
[assign] #14403 clause 2366 -2365
[assign] #14404 clause 2367 -2365
[assign] #14352 justification -1: 2335 2336
[assign] #14362 justification -1: 2337 715 2338
[assign] #13969 justification -1: 2315 2313 2248 2242 1851
[mk-app] #14411 <= #281 #282
[mk-app] #14413 >= #281 #282
[assign] #14411 justification -1: 41
[assign] #14413 justification -1: 41
[attach-meaning] #363 arith (- 1)
[mk-app] #14414 + #14305 #14389
[mk-app] #14415 <= #14414 #334
[mk-app] #14416 >= #14414 #334
[attach-enode] #14414 0
[assign] #14415 justification -1: 2364
[assign] #14416 justification -1: 2364
[eq-expl] #3556 root
[new-match] 2296941121 #164 #163 #3556 ; #14179
[eq-expl] #3563 lit #14180 ; #14179
[eq-expl] #14179 root
[new-match] 3667285938 #138 #137 #3556 ; #14106 (#135 #135) (#3563 #14179)
[mk-app] #14417 not #164
[mk-app] #14418 or #14417 #14224
[instance] 2296941121 ; 3
[attach-enode] #14223 3
[assign] #14224 justification -1: 24
[end-of-instance]
[assign] #14355 clause 2352 -2351
[assign] #14359 clause 2353 -2351
[assign] #14366 clause 2355 -2354
[assign] #14370 clause 2357 -2356
[assign] #13979 clause 2358 -2356
[eq-expl] #14354 cg (#14307 #14236) ; #14097
[new-match] 836643597 #11183 #454 #14354 ; #14355
[eq-expl] #13971 cg (#13250 #13821) ; #13822
[eq-expl] #13822 lit #13825 ; #13824
[new-match] 2039972352 #11540 #442 #13971 #270 ; #14370
[new-match] 1862906279 #169 #168 #14354 ; #14358
[new-match] 669353760 #169 #168 #13971 ; #13978
[eq-expl] #14364 root
[new-match] 2805934816 #1462 #1461 #14364 ; #14365
[eq-expl] #14358 lit #14359 ; #14307
[new-match] 4127071031 #509 #505 #14354 ; #14301 (#244 #244) (#14236 #14358)
[eq-expl] #14365 lit #14366 ; #14315
[new-match] 3624421073 #1513 #1512 #14364 ; #14311 (#1463 #3204) (#14242 #14365)
[eq-expl] #13978 lit #13979 ; #13250
[new-match] 3954363791 #10995 #470 #13971 ; #13942 (#203 #203) (#13941 #13978)
[mk-app] #14419 charInv #14097
[mk-app] #14420 <= #14097 #390
[mk-app] #14421 not #14420
[mk-app] #14422 or #14329 #14421
[mk-app] #14423 not #14422
[mk-app] #14424 >= #14097 #410
[mk-app] #14425 not #14424
[mk-app] #14426 <= #14097 #412
[mk-app] #14427 not #14426
[mk-app] #14428 or #14425 #14427
[mk-app] #14429 not #14428
[mk-app] #14430 or #14423 #14429
[mk-app] #14431 = #14419 #14430
[inst-discovered] theory-solving 0x0 basic# ; #14422
[mk-app] #14432 = #14422 #14422
[instance] 0x0 #14432
[attach-enode] #14432 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14428
[mk-app] #14432 = #14428 #14428
[instance] 0x0 #14432
[attach-enode] #14432 0
[end-of-instance]
[mk-app] #14432 or #4386 #14431
[instance] 836643597 ; 6
[attach-enode] #14419 6
[assign] #14431 justification -1: 60
[end-of-instance]
[mk-app] #14433 or #13999 #14009
[mk-app] #14434 = #14433 #14003
[mk-app] #14435 not #14433
[mk-app] #14436 not #14434
[inst-discovered] theory-solving 0x0 basic# ; #14436
[mk-app] #14435 = #14436 #14436
[instance] 0x0 #14435
[attach-enode] #14435 0
[end-of-instance]
[mk-app] #14435 or #13345 #14436
[instance] 2039972352 ; 5
[attach-enode] #14007 5
[attach-enode] #14008 5
[attach-enode] #14003 5
[assign] (not #14434) justification -1: 58
[end-of-instance]
[assign] #14419 justification -1: 2352 2336
[assign] #14003 justification -1: 2357 2209 2313
[assign] #14430 clause 2383 -2377 -2384
[assign] (not #14433) clause -2387 -2388 2389
[assign] #13998 clause 2385 2387
[assign] (not #14009) clause -2386 2387
[push] 10
[assign] (not #13228) decision axiom
[assign] (not #739) justification -1: -1813
[assign] (not #13264) justification -1: -1813 1953
[assign] (not #13268) justification -1: -1813 1953
[assign] (not #13397) justification -1: -1813 1953
[assign] (not #13401) justification -1: -1813 1953
[push] 11
[assign] (not #432) decision axiom
[assign] (not #155) justification -1: -1816
[assign] (not #13277) justification -1: -1816 1956
[assign] (not #13281) justification -1: -1816 1956
[assign] (not #13408) justification -1: -1816 1956
[assign] (not #13412) justification -1: -1816 1956
[push] 12
[assign] (not #13221) decision axiom
[assign] (not #13239) justification -1: -1819
[assign] (not #13290) justification -1: -1819 1959
[assign] (not #13294) justification -1: -1819 1959
[assign] (not #13419) justification -1: -1819 1959
[assign] (not #13423) justification -1: -1819 1959
[decide-and-or] #13227 #3277
[push] 13
[assign] #3277 decision axiom
[assign] #3450 clause 1879 -1889 -1890
[assign] #1047 clause 1880 -1879
[assign] #726 clause 1882 -1880
[assign] (not #719) clause -1887 -1882 -1888
[assign] #1782 clause 1883 1887
[assign] #3377 clause 1884 1887
[push] 14
[assign] (not #3556) decision axiom
[assign] (not #14117) clause -2292 1869 -2293
[assign] (not #14223) clause -2375 1869 -2376
[decide-and-or] #13388 #13381
[push] 15
[assign] (not #13380) decision axiom
[assign] #13376 clause 1943 1945
[assign] #13378 clause 1944 1945
[assign] (not #13382) clause -1946 -1944
[assign] #13384 clause 1947 -1944
[assign] #13386 clause 1948 1946
[decide-and-or] #13879 #13863
[push] 16
[assign] (not #13862) decision axiom
[new-match] 1402146131 #194 #190 #13823 ; #13862 (#184 #184)
[new-match] 3679769547 #460 #459 #13814 ; #13862 (#184 #184) (#13823 #13823)
[mk-app] #14437 has_type #13880 #184
[mk-app] #14438 not #460
[mk-app] #14439 or #14438 #14437
[instance] 3679769547 ; 3
[attach-enode] #14437 3
[assign] #14437 justification -1: 61
[end-of-instance]
[resolve-lit] 0 (not #14437)
[resolve-process] #14437
[resolve-lit] 0 #13862
[resolve-process] (not #14437)
[conflict] #13862
[pop] 1 17
[assign] #13862 axiom
[assign] #13868 clause 2252 -2251 -2086 -2199
[new-match] 1402146131 #194 #190 #13823 ; #13862 (#184 #184)
[new-match] 3679769547 #460 #459 #13814 ; #13862 (#184 #184) (#13823 #13823)
[new-match] 42148558 #8330 #8329 #8364 #8402 #13823 #3903 ; #14016
[new-match] 3112631576 #12717 #8347 #8363 #8402 #13823 #3903 ; #14016 (#8364 #8364)
[mk-app] #14438 u_tokenizer!lex.rec%scan.? #3903 #13823 #8402 #6587
[mk-app] #14439 = #14016 #14438
[mk-app] #14440 or #14120 #14439
[instance] 42148558 ; 3
[attach-enode] #14438 3
[attach-enode] #14439 3
[assign] #14439 justification -1: 1415
[end-of-instance]
[mk-app] #14441 >= #14203 #334
[mk-app] #14442 not #14441
[mk-app] #14443 + #14203 #13456
[mk-app] #14444 >= #14443 #334
[mk-app] #14445 u_tokenizer!lex.within.? #8402 #13864
[mk-app] #14446 not #14445
[mk-app] #14447 or #14442 #14444 #14446
[mk-app] #14448 Add #14203 #289
[mk-app] #14449 I #14448
[mk-app] #14450 u_tokenizer!lex.rec%scan.? #3903 #14449 #8402 #8363
[mk-app] #14451 if #14447 #14203 #14450
[mk-app] #14452 = #14016 #14451
[mk-app] #14453 or #13643 #13863 #13794 #14452
[mk-app] #14454 + #13456 #14203
[inst-discovered] theory-solving 0x0 arith# ; #14443
[mk-app] #14455 = #14443 #14454
[instance] 0x0 #14455
[attach-enode] #14455 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14455 + #3865 #14213
[mk-app] #14456 <= #14455 #334
[mk-app] #14457 >= #14454 #334
[inst-discovered] theory-solving 0x0 arith# ; #14457
[mk-app] #14458 = #14457 #14456
[instance] 0x0 #14458
[attach-enode] #14458 0
[end-of-instance]
[mk-app] #14454 or #14442 #14456 #14446
[inst-discovered] theory-solving 0x0 basic# ; #14454
[mk-app] #14457 = #14454 #14454
[instance] 0x0 #14457
[attach-enode] #14457 0
[end-of-instance]
[mk-app] #14457 if #14454 #14203 #14450
[mk-app] #14458 = #14016 #14457
[mk-app] #14459 or #13643 #13863 #13794 #14458
[inst-discovered] theory-solving 0x0 basic# ; #14459
[mk-app] #14460 = #14459 #14459
[instance] 0x0 #14460
[attach-enode] #14460 0
[end-of-instance]
[mk-app] #14460 or #14259 #13643 #13863 #13794 #14458
[instance] 3112631576 ; 3
[mk-app] #14461 = #14203 #14457
[mk-app] #14462 = #14450 #14457
[attach-enode] #14457 3
[attach-enode] #14455 3
[attach-enode] #13864 3
[attach-enode] #14445 3
[attach-enode] #14448 3
[attach-enode] #14449 3
[attach-enode] #14450 3
[attach-enode] #14461 3
[attach-enode] #14462 3
[attach-enode] #14458 3
[assign] #14458 justification -1: 1416 2086 2199 2251
[end-of-instance]
[assign] (not #14461) justification -1: -1885 1839 2397 2252 2245 1838 1961 1965 2253
[assign] (not #14456) clause -2392 1886 -2267 -1846
[new-match] 720737309 #8330 #8329 #6587 #8402 #13823 #3903 ; #14438
[assign] (not #14454) clause -2394 2395
[assign] #14441 clause 2391 2394
[assign] #14445 clause 2393 2394
[assign] #14462 clause 2396 2394
[assign] #14210 justification -1: 2393 1965 1965 1966 1962 1961
[mk-app] #14459 = #14036 #14203
[attach-meaning] #363 arith (- 1)
[mk-app] #14463 + #14036 #14213
[mk-app] #14464 <= #14463 #334
[mk-app] #14465 >= #14463 #334
[attach-enode] #14459 0
[attach-enode] #14463 0
[assign] (not #14464) clause -2399 1886 -2267 -2215
[assign] #14465 clause 2400 -2215 -2267 -1845
[eq-expl] #14209 cg (#120 #120) (#244 #244) (#14035 #13816) (#13823 #13823) ; #13827
[eq-expl] #13827 lit #13828 ; #3683
[new-match] 1240484225 #12713 #8310 #14209 #8402 ; #14210
[eq-expl] #14203 cg (#13823 #13880) ; #13881
[eq-expl] #13881 lit #13882 ; #3764
[eq-expl] #14448 cg (#14203 #3764) (#289 #289) ; #3594
[eq-expl] #14449 cg (#14448 #3594) ; #14126
[new-match] 3678842285 #8330 #8329 #8363 #8402 #14449 #3903 ; #14450
[mk-app] #14466 u_tokenizer!lex.within.? #8402 #13254
[mk-app] #14467 is #13800
[mk-app] #14468 u_tokenizer!lex.is_alnum.? #13254
[mk-app] #14469 = #13938 #7067
[mk-app] #14470 or #14468 #14469
[mk-app] #14471 u_tokenizer!lex.is_digit.? #13254
[mk-app] #14472 is #13800
[mk-app] #14473 = #13938 #7059
[mk-app] #14474 not #14473
[mk-app] #14475 is #13800
[mk-app] #14476 = #13938 #6750
[mk-app] #14477 not #14476
[mk-app] #14478 u_tokenizer!text.is_blank.? #13254
[mk-app] #14479 not #14478
[mk-app] #14480 or #14479 #14476
[mk-app] #14481 not #14480
[mk-app] #14482 if #14475 #14477 #14481
[mk-app] #14483 if #14472 #14474 #14482
[mk-app] #14484 if #13804 #14471 #14483
[mk-app] #14485 if #14467 #14470 #14484
[mk-app] #14486 = #14466 #14485
[mk-app] #14487 u_tokenizer!lex.within.? #8402 #13251
[mk-app] #14488 u_tokenizer!lex.is_alnum.? #13251
[mk-app] #14489 = #13918 #7067
[mk-app] #14490 or #14488 #14489
[mk-app] #14491 u_tokenizer!lex.is_digit.? #13251
[mk-app] #14492 = #13918 #7059
[mk-app] #14493 not #14492
[mk-app] #14494 = #13918 #6750
[mk-app] #14495 not #14494
[mk-app] #14496 u_tokenizer!text.is_blank.? #13251
[mk-app] #14497 not #14496
[mk-app] #14498 or #14497 #14494
[mk-app] #14499 not #14498
[mk-app] #14500 if #14475 #14495 #14499
[mk-app] #14501 if #14472 #14493 #14500
[mk-app] #14502 if #13804 #14491 #14501
[mk-app] #14503 if #14467 #14490 #14502
[mk-app] #14504 = #14487 #14503
[mk-app] #14505 not #12713
[mk-app] #14506 or #14505 #14504
[instance] 1240484225 ; 3
[attach-enode] #14487 3
[attach-enode] #14467 3
[attach-enode] #14488 3
[attach-enode] #7067 3
[attach-enode] #14489 3
[attach-enode] #14491 3
[attach-enode] #14472 3
[attach-enode] #7059 3
[attach-enode] #14492 3
[attach-enode] #14475 3
[attach-enode] #14494 3
[attach-enode] #14496 3
[assign] #14504 justification -1: 1413
[end-of-instance]
[mk-app] #14507 u_tokenizer!lex.rec%scan.? #3903 #14126 #8402 #8363
[mk-app] #14508 u_tokenizer!lex.rec%scan.? #3903 #14126 #8402 #6587
[mk-app] #14509 = #14507 #14508
[mk-app] #14510 or #14120 #14509
[instance] 3678842285 ; 4
[attach-enode] #14507 4
[attach-enode] #14508 4
[attach-enode] #14509 4
[assign] #14509 justification -1: 1415
[end-of-instance]
[assign] (not #14459) clause -2398 2399
[assign] #14487 justification -1: 2370 2210 2243 1965 1965 1966 1962 1961
[assign] (not #14467) justification -1: -2238 1863 1856 1856 2202
[assign] (not #14496) justification -1: -2292 2369
[new-match] 4129808312 #8330 #8329 #6587 #8402 #14126 #3903 ; #14508
[assign] #14503 clause 2416 -2401 -2417
[assign] #14502 clause 2415 2402 -2416
[assign] #14498 clause 2412 2411
[assign] #14501 clause 2414 -2415
[decide-and-or] #13995 #13988
[push] 16
[assign] (not #13987) decision axiom
[assign] #13983 clause 2258 2260
[assign] #13985 clause 2259 2260
[assign] (not #13989) clause -2261 -2259
[assign] #13991 clause 2262 -2259
[assign] #13993 clause 2263 2261
[decide-and-or] #13951 #14194
[push] 17
[assign] (not #14193) decision axiom
[new-match] 3207527226 #194 #190 #14126 ; #14193 (#184 #184)
[new-match] 3779800210 #460 #459 #3594 ; #14193 (#184 #184) (#14126 #14126)
[mk-app] #14511 not #460
[mk-app] #14512 or #14511 #14193
[instance] 3779800210 ; 3
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #14193
[conflict] #14193
[pop] 1 18
[assign] #14193 axiom
[assign] #14197 clause 2277 -2276
[new-match] 3207527226 #194 #190 #14126 ; #14193 (#184 #184)
[new-match] 3779800210 #460 #459 #3594 ; #14193 (#184 #184) (#14126 #14126)
[new-match] 65954497 #8330 #8329 #8364 #8402 #14126 #3903 ; #14196
[new-match] 1588217564 #12717 #8347 #8363 #8402 #14126 #3903 ; #14196 (#8364 #8364)
[mk-app] #14511 = #14196 #14508
[mk-app] #14512 or #14120 #14511
[instance] 65954497 ; 3
[attach-enode] #14511 3
[assign] #14511 justification -1: 1415
[end-of-instance]
[mk-app] #14513 >= #14200 #334
[mk-app] #14514 not #14513
[mk-app] #14515 + #14200 #13456
[mk-app] #14516 >= #14515 #334
[mk-app] #14517 vstd!seq.Seq.index.? #120 #244 #3903 #14126
[mk-app] #14518 u_tokenizer!lex.within.? #8402 #14517
[mk-app] #14519 not #14518
[mk-app] #14520 or #14514 #14516 #14519
[mk-app] #14521 Add #14200 #289
[mk-app] #14522 I #14521
[mk-app] #14523 u_tokenizer!lex.rec%scan.? #3903 #14522 #8402 #8363
[mk-app] #14524 if #14520 #14200 #14523
[mk-app] #14525 = #14196 #14524
[mk-app] #14526 or #13643 #14194 #13794 #14525
[mk-app] #14527 + #13456 #14200
[inst-discovered] theory-solving 0x0 arith# ; #14515
[mk-app] #14528 = #14515 #14527
[instance] 0x0 #14528
[attach-enode] #14528 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14528 * #363 #14200
[mk-app] #14529 + #3865 #14528
[mk-app] #14530 <= #14529 #334
[mk-app] #14531 >= #14527 #334
[inst-discovered] theory-solving 0x0 arith# ; #14531
[mk-app] #14532 = #14531 #14530
[instance] 0x0 #14532
[attach-enode] #14532 0
[end-of-instance]
[mk-app] #14527 or #14514 #14530 #14519
[inst-discovered] theory-solving 0x0 basic# ; #14527
[mk-app] #14531 = #14527 #14527
[instance] 0x0 #14531
[attach-enode] #14531 0
[end-of-instance]
[mk-app] #14531 if #14527 #14200 #14523
[mk-app] #14532 = #14196 #14531
[mk-app] #14533 or #13643 #14194 #13794 #14532
[inst-discovered] theory-solving 0x0 basic# ; #14533
[mk-app] #14534 = #14533 #14533
[instance] 0x0 #14534
[attach-enode] #14534 0
[end-of-instance]
[mk-app] #14534 or #14259 #13643 #14194 #13794 #14532
[instance] 1588217564 ; 3
[mk-app] #14535 = #14200 #14531
[mk-app] #14536 = #14523 #14531
[attach-enode] #14531 3
[attach-enode] #14528 3
[attach-enode] #14529 3
[attach-enode] #14517 3
[attach-enode] #14518 3
[attach-enode] #14521 3
[attach-enode] #14522 3
[attach-enode] #14523 3
[attach-enode] #14535 3
[attach-enode] #14536 3
[attach-enode] #14532 3
[assign] #14532 justification -1: 1416 2086 2199 2276
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14533 + #3594 #14528
[mk-app] #14537 <= #14533 #334
[mk-app] #14538 >= #14533 #334
[attach-enode] #14533 0
[assign] #14537 justification -1: 2278
[assign] #14538 justification -1: 2278
[mk-app] #14539 = #14036 #14127
[attach-meaning] #363 arith (- 1)
[mk-app] #14540 + #14036 #14132
[mk-app] #14541 <= #14540 #334
[mk-app] #14542 >= #14540 #334
[assign] #14539 justification -1: 2277 2419 2418 2396 2397 2252 2245 1961 2253 1965
[attach-enode] #14539 0
[attach-enode] #14540 0
[assign] #14541 justification -1: 2429
[assign] #14542 justification -1: 2429
[assign] #14513 clause 2420 -2427 -2197 -2205 -2231 -1840 -1844
[push] 17
[assign] (not #14190) decision axiom
[assign] #14271 clause 2286 2287
[assign] #14284 clause 2289 2287
[eq-expl] #14270 root
[new-match] 2740982356 #12713 #8310 #14270 #8402 ; #14271
[eq-expl] #14275 root
[new-match] 3301477418 #8330 #8329 #8363 #8402 #14275 #3903 ; #14276
[new-match] 993607977 #14168 #14160 #3839 ; #14270 (#120 #120) (#244 #244) (#3903 #14035)
[new-match] 114926137 #11858 #3908 #3839 #3903 #244 #120 ; #14270
[eq-expl] #14274 root
[new-match] 438431879 #169 #168 #14274 ; #14275
[eq-expl] #13805 lit #13806 ; #3838
[new-match] 3942207851 #550 #548 #289 #13805 ; #14274
[mk-app] #14543 u_tokenizer!lex.is_alnum.? #14270
[mk-app] #14544 %I #14270
[mk-app] #14545 = #14544 #7067
[mk-app] #14546 or #14543 #14545
[mk-app] #14547 u_tokenizer!lex.is_digit.? #14270
[mk-app] #14548 = #14544 #7059
[mk-app] #14549 not #14548
[mk-app] #14550 = #14544 #6750
[mk-app] #14551 not #14550
[mk-app] #14552 u_tokenizer!text.is_blank.? #14270
[mk-app] #14553 not #14552
[mk-app] #14554 or #14553 #14550
[mk-app] #14555 not #14554
[mk-app] #14556 if #14475 #14551 #14555
[mk-app] #14557 if #14472 #14549 #14556
[mk-app] #14558 if #13804 #14547 #14557
[mk-app] #14559 if #14467 #14546 #14558
[mk-app] #14560 = #14271 #14559
[mk-app] #14561 or #14505 #14560
[instance] 2740982356 ; 3
[attach-enode] #14543 3
[attach-enode] #14544 3
[attach-enode] #14545 3
[attach-enode] #14547 3
[attach-enode] #14548 3
[attach-enode] #14550 3
[attach-enode] #14552 3
[assign] #14560 justification -1: 1413
[end-of-instance]
[mk-app] #14562 u_tokenizer!lex.rec%scan.? #3903 #14275 #8402 #6587
[mk-app] #14563 = #14276 #14562
[mk-app] #14564 or #14120 #14563
[instance] 3301477418 ; 3
[attach-enode] #14562 3
[attach-enode] #14563 3
[assign] #14563 justification -1: 1415
[end-of-instance]
[mk-app] #14565 has_type #14270 #244
[mk-app] #14566 or #13451 #13792 #14565
[mk-app] #14567 not #11858
[mk-app] #14568 or #14567 #13451 #13792 #14565
[instance] 114926137 ; 3
[attach-enode] #14565 3
[assign] #14565 justification -1: 816 1967 2198
[end-of-instance]
[mk-app] #14569 %I #14275
[mk-app] #14570 = #14274 #14569
[mk-app] #14571 or #13617 #14570
[instance] 438431879 ; 3
[attach-enode] #14569 3
[attach-enode] #14570 3
[assign] #14570 justification -1: 25
[end-of-instance]
[mk-app] #14572 Add #3838 #289
[mk-app] #14573 * #363 #14572
[mk-app] #14574 + #289 #3838 #14573
[mk-app] #14575 = #14574 #334
[attach-meaning] #363 arith (- 1)
[mk-app] #14576 + #3838 #14573
[mk-app] #14577 = #14576 #363
[inst-discovered] theory-solving 0x0 arith# ; #14575
[mk-app] #14578 = #14575 #14577
[instance] 0x0 #14578
[attach-enode] #14578 0
[end-of-instance]
[mk-app] #14578 or #13785 #14577
[instance] 3942207851 ; 3
[attach-enode] #14572 3
[attach-enode] #14573 3
[attach-enode] #14576 3
[attach-enode] #14577 3
[mk-app] #14579 <= #14576 #363
[mk-app] #14580 >= #14576 #363
[assign] #14577 justification -1: 76
[end-of-instance]
[assign] #14559 clause 2443 -2444
[assign] #14579 clause 2449 -2448
[assign] #14580 clause 2450 -2448
[assign] #14558 clause 2442 -2443
[assign] #14557 clause 2441 -2442
[new-match] 3887937977 #8330 #8329 #6587 #8402 #14275 #3903 ; #14562
[new-match] 3614467471 #525 #247 #14270 ; #14565 (#244 #244)
[new-match] 4092626887 #251 #247 #14270 ; #14565 (#244 #244)
[mk-app] #14581 not #14565
[mk-app] #14582 charInv #14544
[mk-app] #14583 or #14581 #14582
[inst-discovered] theory-solving 0x0 basic# ; #14583
[mk-app] #14584 = #14583 #14583
[instance] 0x0 #14584
[attach-enode] #14584 0
[end-of-instance]
[mk-app] #14584 or #14029 #14581 #14582
[instance] 3614467471 ; 4
[attach-enode] #14582 4
[assign] #14582 justification -1: 71 2446
[end-of-instance]
[mk-app] #14585 I #14544
[mk-app] #14586 = #14270 #14585
[mk-app] #14587 or #14581 #14586
[mk-app] #14588 or #13888 #14581 #14586
[instance] 4092626887 ; 4
[attach-enode] #14585 4
[attach-enode] #14586 4
[assign] #14586 justification -1: 35 2446
[end-of-instance]
[eq-expl] #14544 root
[new-match] 2494325109 #11183 #454 #14544 ; #14582
[new-match] 3394376313 #169 #168 #14544 ; #14585
[eq-expl] #14270 lit #14586 ; #14585
[eq-expl] #14585 root
[new-match] 1099155597 #509 #505 #14544 ; #14565 (#244 #244) (#14270 #14585)
[mk-app] #14589 >= #14544 #334
[mk-app] #14590 not #14589
[mk-app] #14591 <= #14544 #390
[mk-app] #14592 not #14591
[mk-app] #14593 or #14590 #14592
[mk-app] #14594 not #14593
[mk-app] #14595 >= #14544 #410
[mk-app] #14596 not #14595
[mk-app] #14597 <= #14544 #412
[mk-app] #14598 not #14597
[mk-app] #14599 or #14596 #14598
[mk-app] #14600 not #14599
[mk-app] #14601 or #14594 #14600
[mk-app] #14602 = #14582 #14601
[inst-discovered] theory-solving 0x0 basic# ; #14593
[mk-app] #14603 = #14593 #14593
[instance] 0x0 #14603
[attach-enode] #14603 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14599
[mk-app] #14603 = #14599 #14599
[instance] 0x0 #14603
[attach-enode] #14603 0
[end-of-instance]
[mk-app] #14603 or #4386 #14602
[instance] 2494325109 ; 5
[assign] #14602 justification -1: 60
[end-of-instance]
[assign] #14601 clause 2459 -2460
[decide-and-or] #14225 #13905
[push] 18
[assign] (not #13904) decision axiom
[assign] (not #13912) justification -1: -2316 717 715
[eq-expl] #3200 lit #3161 ; #3204
[new-match] 2973841775 #11105 #11104 #13875 ; #13904 (#3200 #3204)
[assign] (not #13910) clause -2318 2319 -2251
[new-match] 890010643 #194 #190 #5644 ; #13910 (#184 #184)
[new-match] 139619888 #460 #459 #334 ; #13910 (#184 #184) (#5644 #5644)
[mk-app] #14604 not #460
[mk-app] #14605 or #14604 #13910
[instance] 139619888 ; 4
[end-of-instance]
[resolve-process] true
[resolve-lit] 0 #13910
[conflict] #13910
[pop] 1 19
[assign] #13910 axiom
[assign] #13912 clause 2319 -2318 -2251
[assign] #13904 justification -1: 2319 717 715
[new-match] 890010643 #194 #190 #5644 ; #13910 (#184 #184)
[new-match] 139619888 #460 #459 #334 ; #13910 (#184 #184) (#5644 #5644)
[new-match] 2973841775 #11105 #11104 #13875 ; #13904 (#3200 #3204)
[mk-app] #14604 has_type #13875 #3204
[mk-app] #14605 not #14604
[mk-app] #14606 %Poly%vstd!seq.Seq<char.>. #13875
[mk-app] #14607 Poly%vstd!seq.Seq<char.>. #14606
[mk-app] #14608 = #13875 #14607
[mk-app] #14609 or #14605 #14608
[mk-app] #14610 or #14368 #14605 #14608
[instance] 2973841775 ; 4
[attach-enode] #14604 4
[attach-enode] #14606 4
[attach-enode] #14607 4
[attach-enode] #14608 4
[end-of-instance]
[assign] #13907 clause 2317 -2316
[assign] #14604 justification -1: 2316 717
[new-match] 3141072646 #6591 #6590 #6613 #13875 ; #13906
[new-match] 3120010589 #11027 #6605 #6612 #13875 ; #13906 (#6613 #6613)
[mk-app] #14611 u_tokenizer!text.rec%blen.? #13875 #6587
[mk-app] #14612 = #13906 #14611
[mk-app] #14613 or #13945 #14612
[instance] 3141072646 ; 4
[attach-enode] #14611 4
[attach-enode] #14612 4
[assign] #14612 justification -1: 1159
[end-of-instance]
[mk-app] #14614 vstd!seq.Seq.len.? #120 #244 #13875
[mk-app] #14615 = #14614 #334
[mk-app] #14616 vstd!seq_lib.impl&%0.drop_last.? #120 #244 #13875
[mk-app] #14617 u_tokenizer!text.rec%blen.? #14616 #6612
[mk-app] #14618 vstd!seq.Seq.last.? #120 #244 #13875
[mk-app] #14619 u_tokenizer!text.clen.? #14618
[mk-app] #14620 Add #14617 #14619
[mk-app] #14621 if #14615 #334 #14620
[mk-app] #14622 = #13906 #14621
[mk-app] #14623 or #13905 #14622
[mk-app] #14624 or #13843 #13905 #14622
[instance] 3120010589 ; 4
[mk-app] #14625 = #14621 #334
[mk-app] #14626 = #14620 #14621
[attach-enode] #14621 4
[attach-enode] #14614 4
[attach-enode] #14615 4
[attach-enode] #14616 4
[attach-enode] #14617 4
[attach-enode] #14618 4
[attach-enode] #14619 4
[attach-enode] #14620 4
[attach-enode] #14625 4
[attach-enode] #14626 4
[attach-enode] #14622 4
[assign] #14622 justification -1: 1160 2316
[end-of-instance]
[assign] #14608 clause 2462 -2461
[eq-expl] #13875 lit #14608 ; #14607
[eq-expl] #14607 root
[new-match] 1469730059 #6591 #6590 #6587 #13875 ; #14611
[new-match] 2308800674 #3884 #3879 #13875 #244 #120 ; #14614
[new-match] 2474915392 #11940 #4193 #13823 #5644 #3903 #244 #120 ; #14614 (#13875 #13875) (#120 #120) (#120 #120) (#244 #244) (#244 #244)
[eq-expl] #14606 root
[new-match] 2543816604 #1462 #1461 #14606 ; #14607
[new-match] 660896399 #1513 #1512 #14606 ; #13904 (#3200 #3204) (#13875 #14607)
[mk-app] #14627 has_type #14607 #1463
[mk-app] #14628 not #14627
[mk-app] #14629 vstd!seq.Seq.len.? #120 #244 #14607
[mk-app] #14630 >= #14629 #334
[mk-app] #14631 or #14628 #14630
[mk-app] #14632 or #13454 #14628 #14630
[instance] 2308800674 ; 5
[attach-enode] #14627 5
[attach-enode] #14629 5
[end-of-instance]
[mk-app] #14633 >= #13916 #334
[mk-app] #14634 not #14633
[mk-app] #14635 * #363 #13916
[mk-app] #14636 + #14203 #14635
[mk-app] #14637 >= #14636 #334
[mk-app] #14638 not #14637
[mk-app] #14639 <= #14443 #334
[mk-app] #14640 not #14639
[mk-app] #14641 Sub #14203 #13916
[mk-app] #14642 = #14614 #14641
[mk-app] #14643 or #13451 #13911 #13863 #13510 #14634 #14638 #14640 #14642
[mk-app] #14644 + #14635 #14203
[inst-discovered] theory-solving 0x0 arith# ; #14636
[mk-app] #14645 = #14636 #14644
[instance] 0x0 #14645
[attach-enode] #14645 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14645 + #13916 #14213
[mk-app] #14646 <= #14645 #334
[mk-app] #14647 >= #14644 #334
[inst-discovered] theory-solving 0x0 arith# ; #14647
[mk-app] #14648 = #14647 #14646
[instance] 0x0 #14648
[attach-enode] #14648 0
[end-of-instance]
[mk-app] #14647 not #14646
[mk-app] #14648 + #13456 #14203
[inst-discovered] theory-solving 0x0 arith# ; #14443
[mk-app] #14649 = #14443 #14648
[instance] 0x0 #14649
[attach-enode] #14649 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14649 >= #14455 #334
[mk-app] #14650 <= #14648 #334
[inst-discovered] theory-solving 0x0 arith# ; #14650
[mk-app] #14651 = #14650 #14649
[instance] 0x0 #14651
[attach-enode] #14651 0
[end-of-instance]
[mk-app] #14650 not #14649
[mk-app] #14651 or #13451 #13911 #13863 #13510 #14634 #14647 #14650 #14642
[inst-discovered] theory-solving 0x0 basic# ; #14651
[mk-app] #14652 = #14651 #14651
[instance] 0x0 #14652
[attach-enode] #14652 0
[end-of-instance]
[mk-app] #14652 not #11940
[mk-app] #14653 or #14652 #13451 #13911 #13863 #13510 #14634 #14647 #14650 #14642
[instance] 2474915392 ; 5
[attach-enode] #14645 5
[assign] #14649 justification -1: -2392
[attach-enode] #14641 5
[attach-enode] #14642 5
[end-of-instance]
[assign] #14627 justification -1: 2316 717 715 2462
[mk-app] #14651 <= #13916 #334
[assign] #14651 justification -1: 2320
[assign] #14633 justification -1: 2320
[assign] #14630 clause 2469 -2468
[assign] #14646 clause 2471 -2474 -2197 -2205 -2275 -1840 -1844
[assign] #14642 clause 2473 -2471 -2470
[eq-expl] #13916 lit #14177 ; #334
[new-match] 2668650086 #565 #557 #13916 #14203 ; #14641
[mk-app] #14654 Sub #3764 #334
[mk-app] #14655 + #334 #1784 #14654
[mk-app] #14656 = #14655 #334
[mk-app] #14657 + #1784 #14654
[inst-discovered] theory-solving 0x0 arith# ; #14655
[mk-app] #14658 = #14655 #14657
[instance] 0x0 #14658
[attach-enode] #14658 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14658 * #363 #14654
[mk-app] #14659 + #3764 #14658
[mk-app] #14660 = #14659 #334
[mk-app] #14661 = #14657 #334
[inst-discovered] theory-solving 0x0 arith# ; #14661
[mk-app] #14662 = #14661 #14660
[instance] 0x0 #14662
[attach-enode] #14662 0
[end-of-instance]
[mk-app] #14657 or #13461 #14660
[instance] 2668650086 ; 6
[attach-enode] #14654 6
[attach-enode] #14658 6
[attach-enode] #14659 6
[attach-enode] #14660 6
[mk-app] #14661 <= #14659 #334
[mk-app] #14662 >= #14659 #334
[assign] #14660 justification -1: 77
[end-of-instance]
[assign] #14661 clause 2476 -2475
[assign] #14662 clause 2477 -2475
[mk-app] #14663 = #14629 #14654
[attach-meaning] #363 arith (- 1)
[mk-app] #14664 + #14629 #14658
[mk-app] #14665 <= #14664 #334
[mk-app] #14666 >= #14664 #334
[assign] #14663 justification -1: 2473 2320 2253 1961 2462
[attach-enode] #14663 0
[attach-enode] #14664 0
[assign] #14665 justification -1: 2478
[assign] #14666 justification -1: 2478
[push] 18
[assign] (not #13842) decision axiom
[assign] (not #13858) clause -2325 2324
[assign] #14293 clause 2332 2324
[assign] (not #13856) clause -2326 2325
[assign] #14295 clause 2330 2325
[assign] #14297 clause 2328 2326
[mk-app] #14667 = #14237 #289
[mk-app] #14668 <= #14237 #289
[mk-app] #14669 >= #14237 #289
[assign] #14667 justification -1: 2333 2332
[attach-enode] #14667 0
[assign] #14668 justification -1: 2481
[assign] #14669 justification -1: 2481
[decide-and-or] #14135 #14134
[push] 19
[assign] #14134 decision axiom
[push] 20
[assign] (not #14332) decision axiom
[push] 21
[assign] (not #14350) decision axiom
[assign] #14351 clause 2348 2347
[assign] #14328 clause 2344 -2348 -2342
[assign] #14343 clause 2345 -2344 2346 -2349
[assign] (not #14420) clause -2378 -2345 -2372
[assign] #14424 clause 2380 -2345 -2372
[assign] (not #14426) clause -2381 -2345 -2372
[assign] #14422 clause 2379 2378
[assign] #14428 clause 2382 2381
[resolve-process] true
[resolve-lit] 0 (not #14428)
[resolve-lit] 0 (not #14422)
[resolve-lit] 12 (not #14430)
[resolve-process] (not #14428)
[resolve-lit] 0 #14426
[resolve-process] (not #14422)
[resolve-lit] 0 #14420
[resolve-process] #14426
[resolve-lit] 0 (not #14343)
[resolve-lit] 12 (not #14413)
[resolve-process] #14420
[conflict] (not #14343) (not #14430)
[pop] 12 22
[attach-enode] #14455 0
[assign] (not #14456) clause -2390 1886 -2267 -1846
[attach-enode] #14463 0
[assign] (not #14464) clause -2391 1886 -2267 -2215
[assign] #14465 justification -1: -2391
[attach-enode] #14528 0
[attach-enode] #14533 0
[attach-enode] #14645 0
[assign] #13862 axiom
[assign] #14193 axiom
[assign] #13910 axiom
[assign] (not #14343) clause -2345 -2383
[assign] #13868 clause 2252 -2251 -2086 -2199
[assign] #14197 clause 2277 -2276
[assign] #13912 clause 2319 -2318 -2251
[assign] #13904 justification -1: 2319 717 715
[attach-meaning] #363 arith (- 1)
[mk-app] #14454 >= #14533 #334
[assign] #14537 justification -1: 2278
[assign] #14454 justification -1: 2278
[assign] #14651 justification -1: 2320
[assign] #14633 justification -1: 2320
[new-match] 1402146131 #194 #190 #13823 ; #13862 (#184 #184)
[new-match] 3679769547 #460 #459 #13814 ; #13862 (#184 #184) (#13823 #13823)
[new-match] 3207527226 #194 #190 #14126 ; #14193 (#184 #184)
[new-match] 3779800210 #460 #459 #3594 ; #14193 (#184 #184) (#14126 #14126)
[new-match] 890010643 #194 #190 #5644 ; #13910 (#184 #184)
[new-match] 139619888 #460 #459 #334 ; #13910 (#184 #184) (#5644 #5644)
[eq-expl] #13875 root
[new-match] 2973841775 #11105 #11104 #13875 ; #13904 (#3200 #3204)
[new-match] 42148558 #8330 #8329 #8364 #8402 #13823 #3903 ; #14016
[new-match] 3112631576 #12717 #8347 #8363 #8402 #13823 #3903 ; #14016 (#8364 #8364)
[new-match] 65954497 #8330 #8329 #8364 #8402 #14126 #3903 ; #14196
[new-match] 1588217564 #12717 #8347 #8363 #8402 #14126 #3903 ; #14196 (#8364 #8364)
[mk-app] #14457 or #14368 #14605 #14608
[instance] 2973841775 ; 4
[attach-enode] #14604 4
[attach-enode] #14606 4
[attach-enode] #14607 4
[attach-enode] #14608 4
[end-of-instance]
[mk-app] #14461 or #14120 #14439
[instance] 42148558 ; 3
[attach-enode] #14438 3
[attach-enode] #14439 3
[assign] #14439 justification -1: 1415
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14462 >= #14648 #334
[inst-discovered] theory-solving 0x0 arith# ; #14462
[mk-app] #14458 = #14462 #14456
[instance] 0x0 #14458
[attach-enode] #14458 0
[end-of-instance]
[mk-app] #14462 or #14442 #14456 #14446
[inst-discovered] theory-solving 0x0 basic# ; #14462
[mk-app] #14458 = #14462 #14462
[instance] 0x0 #14458
[attach-enode] #14458 0
[end-of-instance]
[mk-app] #14458 if #14462 #14203 #14450
[mk-app] #14459 = #14016 #14458
[mk-app] #14498 or #13643 #13863 #13794 #14459
[inst-discovered] theory-solving 0x0 basic# ; #14498
[mk-app] #14499 = #14498 #14498
[instance] 0x0 #14499
[attach-enode] #14499 0
[end-of-instance]
[mk-app] #14499 or #14259 #13643 #13863 #13794 #14459
[instance] 3112631576 ; 3
[mk-app] #14500 = #14203 #14458
[mk-app] #14501 = #14450 #14458
[attach-enode] #14458 3
[attach-enode] #13864 3
[attach-enode] #14445 3
[attach-enode] #14448 3
[attach-enode] #14449 3
[attach-enode] #14450 3
[attach-enode] #14500 3
[attach-enode] #14501 3
[attach-enode] #14459 3
[assign] #14459 justification -1: 1416 2086 2199 2251
[end-of-instance]
[mk-app] #14498 or #14120 #14511
[instance] 65954497 ; 3
[attach-enode] #14508 3
[attach-enode] #14511 3
[assign] #14511 justification -1: 1415
[end-of-instance]
[mk-app] #14502 + #13456 #14200
[inst-discovered] theory-solving 0x0 arith# ; #14515
[mk-app] #14503 = #14515 #14502
[instance] 0x0 #14503
[attach-enode] #14503 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14503 + #3865 #14528
[mk-app] #14504 <= #14503 #334
[mk-app] #14529 >= #14502 #334
[inst-discovered] theory-solving 0x0 arith# ; #14529
[mk-app] #14530 = #14529 #14504
[instance] 0x0 #14530
[attach-enode] #14530 0
[end-of-instance]
[mk-app] #14502 or #14514 #14504 #14519
[inst-discovered] theory-solving 0x0 basic# ; #14502
[mk-app] #14529 = #14502 #14502
[instance] 0x0 #14529
[attach-enode] #14529 0
[end-of-instance]
[mk-app] #14529 if #14502 #14200 #14523
[mk-app] #14530 = #14196 #14529
[mk-app] #14527 or #13643 #14194 #13794 #14530
[inst-discovered] theory-solving 0x0 basic# ; #14527
[mk-app] #14531 = #14527 #14527
[instance] 0x0 #14531
[attach-enode] #14531 0
[end-of-instance]
[mk-app] #14531 or #14259 #13643 #14194 #13794 #14530
[instance] 1588217564 ; 3
[mk-app] #14535 = #14200 #14529
[mk-app] #14536 = #14523 #14529
[attach-enode] #14529 3
[attach-enode] #14503 3
[attach-enode] #14517 3
[attach-enode] #14518 3
[attach-enode] #14521 3
[attach-enode] #14522 3
[attach-enode] #14523 3
[attach-enode] #14535 3
[attach-enode] #14536 3
[attach-enode] #14530 3
[assign] #14530 justification -1: 1416 2086 2199 2276
[end-of-instance]
[assign] #13907 clause 2317 -2316
[assign] #14513 clause 2393 -2394 -2197 -2205 -2231 -1844 -1840
[assign] #14646 clause 2395 -2396 -2197 -2205 -2275 -1844 -1840
[assign] #14604 justification -1: 2316 717
[assign] (not #14500) justification -1: -1885 1839 2407 2252 2245 1838 1961 1965 2253
[new-match] 720737309 #8330 #8329 #6587 #8402 #13823 #3903 ; #14438
[new-match] 4129808312 #8330 #8329 #6587 #8402 #14126 #3903 ; #14508
[new-match] 3141072646 #6591 #6590 #6613 #13875 ; #13906
[new-match] 3120010589 #11027 #6605 #6612 #13875 ; #13906 (#6613 #6613)
[mk-app] #14527 or #13945 #14612
[instance] 3141072646 ; 4
[attach-enode] #14611 4
[attach-enode] #14612 4
[assign] #14612 justification -1: 1159
[end-of-instance]
[mk-app] #14532 or #13843 #13905 #14622
[instance] 3120010589 ; 4
[mk-app] #14538 = #14621 #334
[mk-app] #14539 = #14620 #14621
[attach-enode] #14621 4
[attach-enode] #14614 4
[attach-enode] #14615 4
[attach-enode] #14616 4
[attach-enode] #14617 4
[attach-enode] #14618 4
[attach-enode] #14619 4
[attach-enode] #14620 4
[attach-enode] #14538 4
[attach-enode] #14539 4
[attach-enode] #14622 4
[assign] #14622 justification -1: 1160 2316
[end-of-instance]
[assign] #14608 clause 2400 -2399
[assign] (not #14462) clause -2404 2405
[assign] #14441 clause 2402 2404
[assign] #14445 clause 2403 2404
[assign] #14501 clause 2406 2404
[assign] #14210 justification -1: 2403 1965 1965 1966 1962 1961
[mk-app] #14540 = #14036 #14203
[attach-meaning] #363 arith (- 1)
[attach-enode] #14540 0
[assign] (not #14540) justification -1: -2391
[eq-expl] #13875 lit #14608 ; #14607
[eq-expl] #14607 root
[new-match] 1469730059 #6591 #6590 #6587 #13875 ; #14611
[new-match] 2308800674 #3884 #3879 #13875 #244 #120 ; #14614
[new-match] 2474915392 #11940 #4193 #13823 #5644 #3903 #244 #120 ; #14614 (#13875 #13875) (#120 #120) (#120 #120) (#244 #244) (#244 #244)
[eq-expl] #14606 root
[new-match] 2543816604 #1462 #1461 #14606 ; #14607
[new-match] 1240484225 #12713 #8310 #14209 #8402 ; #14210
[eq-expl] #14448 cg (#14203 #3764) (#289 #289) ; #3594
[eq-expl] #14449 cg (#14448 #3594) ; #14126
[new-match] 3678842285 #8330 #8329 #8363 #8402 #14449 #3903 ; #14450
[new-match] 660896399 #1513 #1512 #14606 ; #13904 (#3200 #3204) (#13875 #14607)
[mk-app] #14541 or #13454 #14628 #14630
[instance] 2308800674 ; 5
[attach-enode] #14627 5
[attach-enode] #14629 5
[end-of-instance]
[mk-app] #14542 or #13451 #13911 #13863 #13510 #14634 #14647 #14650 #14642
[inst-discovered] theory-solving 0x0 basic# ; #14542
[mk-app] #14576 = #14542 #14542
[instance] 0x0 #14576
[attach-enode] #14576 0
[end-of-instance]
[mk-app] #14576 not #11940
[mk-app] #14577 or #14576 #13451 #13911 #13863 #13510 #14634 #14647 #14650 #14642
[instance] 2474915392 ; 5
[assign] #14649 justification -1: -2390
[attach-enode] #14641 5
[attach-enode] #14642 5
[assign] #14642 justification -1: 17 848 1967 2251 2318 2395 2398 2423
[end-of-instance]
[mk-app] #14542 or #14497 #14494
[mk-app] #14579 not #14542
[mk-app] #14580 if #14475 #14495 #14579
[mk-app] #14625 if #14472 #14493 #14580
[mk-app] #14626 if #13804 #14491 #14625
[mk-app] #14658 if #14467 #14490 #14626
[mk-app] #14659 = #14487 #14658
[mk-app] #14660 not #12713
[mk-app] #14661 or #14660 #14659
[instance] 1240484225 ; 3
[attach-enode] #14487 3
[attach-enode] #14467 3
[attach-enode] #14488 3
[attach-enode] #7067 3
[attach-enode] #14489 3
[attach-enode] #14491 3
[attach-enode] #14472 3
[attach-enode] #7059 3
[attach-enode] #14492 3
[attach-enode] #14475 3
[attach-enode] #14494 3
[attach-enode] #14496 3
[assign] #14659 justification -1: 1413
[end-of-instance]
[mk-app] #14662 or #14120 #14509
[instance] 3678842285 ; 4
[attach-enode] #14507 4
[attach-enode] #14509 4
[assign] #14509 justification -1: 1415
[end-of-instance]
[assign] #14627 justification -1: 2316 717 715 2400
[assign] #14487 justification -1: 2370 2210 2243 1965 1965 1966 1962 1961
[assign] (not #14467) justification -1: -2238 1863 1856 1856 2202
[mk-app] #14663 = #14036 #14127
[attach-meaning] #363 arith (- 1)
[mk-app] #14664 + #14036 #14132
[mk-app] #14665 <= #14664 #334
[mk-app] #14666 >= #14664 #334
[assign] #14663 justification -1: 2277 2408 2442 2406 2407 2252 2245 1961 2253 1965
[attach-enode] #14663 0
[attach-enode] #14664 0
[assign] #14665 justification -1: 2443
[assign] #14666 justification -1: 2443
[new-match] 2668650086 #565 #557 #13916 #14203 ; #14641
[mk-app] #14667 + #1784 #14654
[inst-discovered] theory-solving 0x0 arith# ; #14655
[mk-app] #14668 = #14655 #14667
[instance] 0x0 #14668
[attach-enode] #14668 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14668 * #363 #14654
[mk-app] #14669 + #3764 #14668
[mk-app] #14657 = #14669 #334
[mk-app] #14652 = #14667 #334
[inst-discovered] theory-solving 0x0 arith# ; #14652
[mk-app] #14653 = #14652 #14657
[instance] 0x0 #14653
[attach-enode] #14653 0
[end-of-instance]
[mk-app] #14667 or #13461 #14657
[instance] 2668650086 ; 6
[attach-enode] #14654 6
[attach-enode] #14668 6
[attach-enode] #14669 6
[attach-enode] #14657 6
[mk-app] #14652 <= #14669 #334
[mk-app] #14653 >= #14669 #334
[assign] #14657 justification -1: 77
[end-of-instance]
[assign] #14630 clause 2422 -2421
[assign] #14658 clause 2440 -2425 -2441
[assign] #14626 clause 2439 2426 -2440
[assign] #14652 clause 2447 -2446
[assign] #14653 clause 2448 -2446
[assign] #14625 clause 2438 -2439
[mk-app] #14632 = #14629 #14654
[attach-meaning] #363 arith (- 1)
[mk-app] #14624 + #14629 #14668
[mk-app] #14613 <= #14624 #334
[mk-app] #14610 >= #14624 #334
[assign] #14632 justification -1: 2424 2320 2253 1961 2400
[attach-enode] #14632 0
[attach-enode] #14624 0
[assign] #14613 justification -1: 2449
[assign] #14610 justification -1: 2449
[push] 10
[assign] (not #13228) decision axiom
[assign] (not #739) justification -1: -1813
[assign] (not #13264) justification -1: -1813 1953
[assign] (not #13268) justification -1: -1813 1953
[assign] (not #13397) justification -1: -1813 1953
[assign] (not #13401) justification -1: -1813 1953
[push] 11
[assign] (not #432) decision axiom
[assign] (not #155) justification -1: -1816
[assign] (not #13277) justification -1: -1816 1956
[assign] (not #13281) justification -1: -1816 1956
[assign] (not #13408) justification -1: -1816 1956
[assign] (not #13412) justification -1: -1816 1956
[push] 12
[assign] (not #13221) decision axiom
[assign] (not #13239) justification -1: -1819
[assign] (not #13290) justification -1: -1819 1959
[assign] (not #13294) justification -1: -1819 1959
[assign] (not #13419) justification -1: -1819 1959
[assign] (not #13423) justification -1: -1819 1959
[decide-and-or] #13227 #3277
[push] 13
[assign] #3277 decision axiom
[assign] #3450 clause 1879 -1889 -1890
[assign] #1047 clause 1880 -1879
[assign] #726 clause 1882 -1880
[assign] (not #719) clause -1887 -1882 -1888
[assign] #1782 clause 1883 1887
[assign] #3377 clause 1884 1887
[push] 14
[assign] (not #3556) decision axiom
[assign] (not #14117) clause -2292 1869 -2293
[assign] (not #14223) clause -2375 1869 -2376
[assign] (not #14496) justification -1: -2292 2369
[assign] #14542 clause 2436 2435
[decide-and-or] #13388 #13381
[push] 15
[assign] (not #13380) decision axiom
[assign] #13376 clause 1943 1945
[assign] #13378 clause 1944 1945
[assign] (not #13382) clause -1946 -1944
[assign] #13384 clause 1947 -1944
[assign] #13386 clause 1948 1946
[decide-and-or] #13995 #13988
[push] 16
[assign] (not #13987) decision axiom
[assign] #13983 clause 2258 2260
[assign] #13985 clause 2259 2260
[assign] (not #13989) clause -2261 -2259
[assign] #13991 clause 2262 -2259
[assign] #13993 clause 2263 2261
[push] 17
[assign] (not #14190) decision axiom
[assign] #14271 clause 2286 2287
[assign] #14284 clause 2289 2287
[eq-expl] #14270 root
[new-match] 2740982356 #12713 #8310 #14270 #8402 ; #14271
[new-match] 3301477418 #8330 #8329 #8363 #8402 #14275 #3903 ; #14276
[new-match] 993607977 #14168 #14160 #3839 ; #14270 (#120 #120) (#244 #244) (#3903 #14035)
[new-match] 114926137 #11858 #3908 #3839 #3903 #244 #120 ; #14270
[eq-expl] #14274 root
[new-match] 438431879 #169 #168 #14274 ; #14275
[new-match] 3942207851 #550 #548 #289 #13805 ; #14274
[mk-app] #14603 or #14660 #14560
[instance] 2740982356 ; 3
[attach-enode] #14543 3
[attach-enode] #14544 3
[attach-enode] #14545 3
[attach-enode] #14547 3
[attach-enode] #14548 3
[attach-enode] #14550 3
[attach-enode] #14552 3
[assign] #14560 justification -1: 1413
[end-of-instance]
[mk-app] #14588 or #14120 #14563
[instance] 3301477418 ; 3
[attach-enode] #14562 3
[attach-enode] #14563 3
[assign] #14563 justification -1: 1415
[end-of-instance]
[mk-app] #14584 not #11858
[mk-app] #14578 or #14584 #13451 #13792 #14565
[instance] 114926137 ; 3
[attach-enode] #14565 3
[assign] #14565 justification -1: 816 1967 2198
[end-of-instance]
[mk-app] #14571 or #13617 #14570
[instance] 438431879 ; 3
[attach-enode] #14569 3
[attach-enode] #14570 3
[assign] #14570 justification -1: 25
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14567 + #3838 #14573
[mk-app] #14568 = #14567 #363
[inst-discovered] theory-solving 0x0 arith# ; #14575
[mk-app] #14564 = #14575 #14568
[instance] 0x0 #14564
[attach-enode] #14564 0
[end-of-instance]
[mk-app] #14564 or #13785 #14568
[instance] 3942207851 ; 3
[attach-enode] #14572 3
[attach-enode] #14573 3
[attach-enode] #14567 3
[attach-enode] #14568 3
[mk-app] #14505 <= #14567 #363
[mk-app] #14561 >= #14567 #363
[assign] #14568 justification -1: 76
[end-of-instance]
[assign] #14559 clause 2463 -2464
[assign] #14505 clause 2469 -2468
[assign] #14561 clause 2470 -2468
[assign] #14558 clause 2462 -2463
[assign] #14557 clause 2461 -2462
[new-match] 3887937977 #8330 #8329 #6587 #8402 #14275 #3903 ; #14562
[new-match] 3614467471 #525 #247 #14270 ; #14565 (#244 #244)
[new-match] 4092626887 #251 #247 #14270 ; #14565 (#244 #244)
[inst-discovered] theory-solving 0x0 basic# ; #14583
[mk-app] #14534 = #14583 #14583
[instance] 0x0 #14534
[attach-enode] #14534 0
[end-of-instance]
[mk-app] #14534 or #14029 #14581 #14582
[instance] 3614467471 ; 4
[attach-enode] #14582 4
[assign] #14582 justification -1: 71 2466
[end-of-instance]
[mk-app] #14512 or #13888 #14581 #14586
[instance] 4092626887 ; 4
[attach-enode] #14585 4
[attach-enode] #14586 4
[assign] #14586 justification -1: 35 2466
[end-of-instance]
[eq-expl] #14544 root
[new-match] 2494325109 #11183 #454 #14544 ; #14582
[new-match] 3394376313 #169 #168 #14544 ; #14585
[eq-expl] #14270 lit #14586 ; #14585
[eq-expl] #14585 root
[new-match] 1099155597 #509 #505 #14544 ; #14565 (#244 #244) (#14270 #14585)
[mk-app] #14510 or #4386 #14602
[instance] 2494325109 ; 5
[assign] #14602 justification -1: 60
[end-of-instance]
[assign] #14601 clause 2479 -2480
[push] 18
[assign] (not #13842) decision axiom
[assign] (not #13858) clause -2325 2324
[assign] #14293 clause 2332 2324
[assign] (not #13856) clause -2326 2325
[assign] #14295 clause 2330 2325
[assign] #14297 clause 2328 2326
[mk-app] #14506 = #14237 #289
[mk-app] #14460 <= #14237 #289
[mk-app] #14440 >= #14237 #289
[assign] #14506 justification -1: 2333 2332
[attach-enode] #14506 0
[assign] #14460 justification -1: 2481
[assign] #14440 justification -1: 2481
[decide-and-or] #14135 #14134
[push] 19
[assign] #14134 decision axiom
[push] 20
[assign] (not #14332) decision axiom
[assign] (not #14328) clause -2344 2346 2345 -2349
[assign] #14420 clause 2378 2344
[assign] #14422 clause 2379 2344
[assign] (not #14424) clause -2380 2344
[assign] (not #14351) clause -2348 2344 -2342
[assign] #14426 clause 2381 -2378
[assign] (not #14428) clause -2382 -2379 -2383
[resolve-process] true
[resolve-lit] 0 #14428
[resolve-lit] 0 #14424
[resolve-process] #14428
[resolve-lit] 0 (not #14422)
[resolve-lit] 11 (not #14430)
[resolve-process] #14424
[resolve-lit] 0 #14328
[resolve-process] (not #14422)
[conflict] #14328 (not #14430)
[pop] 11 21
[assign] #14328 clause 2344 -2383
[assign] #14332 clause 2346 -2344 2345 -2349
[assign] #14350 clause 2347 -2346
[assign] #14351 clause 2348 -2346
[push] 10
[assign] (not #13228) decision axiom
[assign] (not #739) justification -1: -1813
[assign] (not #13264) justification -1: -1813 1953
[assign] (not #13268) justification -1: -1813 1953
[assign] (not #13397) justification -1: -1813 1953
[assign] (not #13401) justification -1: -1813 1953
[push] 11
[assign] (not #432) decision axiom
[assign] (not #155) justification -1: -1816
[assign] (not #13277) justification -1: -1816 1956
[assign] (not #13281) justification -1: -1816 1956
[assign] (not #13408) justification -1: -1816 1956
[assign] (not #13412) justification -1: -1816 1956
[push] 12
[assign] (not #13221) decision axiom
[assign] (not #13239) justification -1: -1819
[assign] (not #13290) justification -1: -1819 1959
[assign] (not #13294) justification -1: -1819 1959
[assign] (not #13419) justification -1: -1819 1959
[assign] (not #13423) justification -1: -1819 1959
[decide-and-or] #13227 #3277
[push] 13
[assign] #3277 decision axiom
[assign] #3450 clause 1879 -1889 -1890
[assign] #1047 clause 1880 -1879
[assign] #726 clause 1882 -1880
[assign] (not #719) clause -1887 -1882 -1888
[assign] #1782 clause 1883 1887
[assign] #3377 clause 1884 1887
[push] 14
[assign] (not #3556) decision axiom
[assign] (not #14117) clause -2292 1869 -2293
[assign] (not #14223) clause -2375 1869 -2376
[assign] (not #14496) justification -1: -2292 2369
[assign] #14542 clause 2436 2435
[decide-and-or] #13388 #13381
[push] 15
[assign] (not #13380) decision axiom
[assign] #13376 clause 1943 1945
[assign] #13378 clause 1944 1945
[assign] (not #13382) clause -1946 -1944
[assign] #13384 clause 1947 -1944
[assign] #13386 clause 1948 1946
[decide-and-or] #13995 #13988
[push] 16
[assign] (not #13987) decision axiom
[assign] #13983 clause 2258 2260
[assign] #13985 clause 2259 2260
[assign] (not #13989) clause -2261 -2259
[assign] #13991 clause 2262 -2259
[assign] #13993 clause 2263 2261
[push] 17
[assign] (not #14190) decision axiom
[assign] #14271 clause 2286 2287
[assign] #14284 clause 2289 2287
[eq-expl] #14270 root
[new-match] 2740982356 #12713 #8310 #14270 #8402 ; #14271
[new-match] 3301477418 #8330 #8329 #8363 #8402 #14275 #3903 ; #14276
[new-match] 993607977 #14168 #14160 #3839 ; #14270 (#120 #120) (#244 #244) (#3903 #14035)
[new-match] 114926137 #11858 #3908 #3839 #3903 #244 #120 ; #14270
[eq-expl] #14274 root
[new-match] 438431879 #169 #168 #14274 ; #14275
[new-match] 3942207851 #550 #548 #289 #13805 ; #14274
[mk-app] #14567 or #14660 #14560
[instance] 2740982356 ; 3
[attach-enode] #14543 3
[attach-enode] #14544 3
[attach-enode] #14545 3
[attach-enode] #14547 3
[attach-enode] #14548 3
[attach-enode] #14550 3
[attach-enode] #14552 3
[assign] #14560 justification -1: 1413
[end-of-instance]
[mk-app] #14568 or #14120 #14563
[instance] 3301477418 ; 3
[attach-enode] #14562 3
[attach-enode] #14563 3
[assign] #14563 justification -1: 1415
[end-of-instance]
[mk-app] #14505 not #11858
[mk-app] #14561 or #14505 #13451 #13792 #14565
[instance] 114926137 ; 3
[attach-enode] #14565 3
[assign] #14565 justification -1: 816 1967 2198
[end-of-instance]
[mk-app] #14506 or #13617 #14570
[instance] 438431879 ; 3
[attach-enode] #14569 3
[attach-enode] #14570 3
[assign] #14570 justification -1: 25
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14460 + #3838 #14573
[mk-app] #14440 = #14460 #363
[inst-discovered] theory-solving 0x0 arith# ; #14575
[mk-app] #14510 = #14575 #14440
[instance] 0x0 #14510
[attach-enode] #14510 0
[end-of-instance]
[mk-app] #14510 or #13785 #14440
[instance] 3942207851 ; 3
[attach-enode] #14572 3
[attach-enode] #14573 3
[attach-enode] #14460 3
[attach-enode] #14440 3
[mk-app] #14512 <= #14460 #363
[mk-app] #14534 >= #14460 #363
[assign] #14440 justification -1: 76
[end-of-instance]
[assign] #14559 clause 2463 -2464
[assign] #14512 clause 2469 -2468
[assign] #14534 clause 2470 -2468
[assign] #14558 clause 2462 -2463
[assign] #14557 clause 2461 -2462
[new-match] 3887937977 #8330 #8329 #6587 #8402 #14275 #3903 ; #14562
[new-match] 3614467471 #525 #247 #14270 ; #14565 (#244 #244)
[new-match] 4092626887 #251 #247 #14270 ; #14565 (#244 #244)
[inst-discovered] theory-solving 0x0 basic# ; #14583
[mk-app] #14564 = #14583 #14583
[instance] 0x0 #14564
[attach-enode] #14564 0
[end-of-instance]
[mk-app] #14564 or #14029 #14581 #14582
[instance] 3614467471 ; 4
[attach-enode] #14582 4
[assign] #14582 justification -1: 71 2466
[end-of-instance]
[mk-app] #14571 or #13888 #14581 #14586
[instance] 4092626887 ; 4
[attach-enode] #14585 4
[attach-enode] #14586 4
[assign] #14586 justification -1: 35 2466
[end-of-instance]
[eq-expl] #14544 root
[new-match] 2494325109 #11183 #454 #14544 ; #14582
[new-match] 3394376313 #169 #168 #14544 ; #14585
[eq-expl] #14270 lit #14586 ; #14585
[eq-expl] #14585 root
[new-match] 1099155597 #509 #505 #14544 ; #14565 (#244 #244) (#14270 #14585)
[mk-app] #14584 or #4386 #14602
[instance] 2494325109 ; 5
[assign] #14602 justification -1: 60
[end-of-instance]
[assign] #14601 clause 2479 -2480
[push] 18
[assign] (not #13842) decision axiom
[assign] (not #13858) clause -2325 2324
[assign] #14293 clause 2332 2324
[assign] (not #13856) clause -2326 2325
[assign] #14295 clause 2330 2325
[assign] #14297 clause 2328 2326
[mk-app] #14578 = #14237 #289
[mk-app] #14588 <= #14237 #289
[mk-app] #14603 >= #14237 #289
[assign] #14578 justification -1: 2333 2332
[attach-enode] #14578 0
[assign] #14588 justification -1: 2481
[assign] #14603 justification -1: 2481
[assign] #14420 clause 2378 2325 -2347
[assign] (not #14424) clause -2380 2325 -2347
[assign] #14426 clause 2381 2326 -2347
[assign] (not #14422) clause -2379 -2378 -2344
[assign] #14428 clause 2382 2380
[decide-and-or] #14135 #14134
[push] 19
[assign] #14134 decision axiom
[decide-and-or] #14395 #14378
[push] 20
[assign] (not #14377) decision axiom
[new-match] 554490394 #194 #190 #14306 ; #14377 (#184 #184)
[eq-expl] #14305 lit #14392 ; #14379
[eq-expl] #14379 root
[new-match] 667376401 #460 #459 #14305 ; #14377 (#184 #184) (#14306 #14306)
[mk-app] #14670 I #14379
[mk-app] #14671 has_type #14670 #184
[mk-app] #14672 not #460
[mk-app] #14673 or #14672 #14671
[instance] 667376401 ; 6
[attach-enode] #14670 6
[attach-enode] #14671 6
[assign] #14671 justification -1: 61
[end-of-instance]
[resolve-lit] 0 (not #14671)
[resolve-process] #14671
[resolve-lit] 0 #14377
[resolve-lit] 11 (not #14392)
[resolve-process] (not #14671)
[conflict] #14377
[pop] 1 21
[assign] #14377 axiom
[new-match] 554490394 #194 #190 #14306 ; #14377 (#184 #184)
[new-match] 667376401 #460 #459 #14305 ; #14377 (#184 #184) (#14306 #14306)
[decide-and-or] #14395 #14388
[push] 20
[assign] (not #14391) decision axiom
[push] 21
[assign] (not #14502) decision axiom
[assign] (not #14504) clause -2409 2411
[assign] #14518 clause 2410 2411
[assign] #14536 clause 2413 2411
[resolve-process] true
[resolve-lit] 12 (not #14415)
[resolve-lit] 12 (not #14403)
[resolve-lit] 0 #14504
[resolve-lit] 12 (not #14537)
[resolve-lit] 1 #14391
[conflict] #14504 (not #14537) #14391
[pop] 1 22
[assign] #14504 clause 2409 2361 -2394
[pop] 20 21
[assign] #13452 clause 1968 -1841 -1840
[attach-enode] #13782 0
[attach-enode] #13808 0
[attach-enode] #13813 0
[attach-enode] #13814 0
[attach-enode] #13815 0
[attach-enode] #13816 0
[attach-enode] #13817 0
[attach-enode] #13818 0
[attach-enode] #13819 0
[attach-enode] #13845 0
[attach-enode] #13846 0
[attach-enode] #13850 0
[attach-enode] #13821 0
[attach-enode] #13822 0
[attach-enode] #13823 0
[attach-enode] #13824 0
[attach-enode] #13825 0
[attach-enode] #13827 0
[attach-enode] #13828 0
[attach-enode] #14032 0
[attach-enode] #14035 0
[attach-enode] #14036 0
[attach-enode] #14037 0
[attach-enode] #14038 0
[attach-enode] #14058 0
[attach-enode] #14045 0
[attach-enode] #14046 0
[attach-enode] #14047 0
[attach-enode] #14062 0
[attach-enode] #14017 0
[attach-enode] #14086 0
[attach-enode] #14203 0
[attach-enode] #14213 0
[attach-enode] #14214 0
[attach-enode] #14220 0
[attach-enode] #14126 0
[attach-enode] #14127 0
[attach-enode] #14132 0
[attach-enode] #14153 0
[attach-enode] #14217 0
[attach-enode] #13787 0
[attach-enode] #13805 0
[attach-enode] #14281 0
[attach-enode] #14286 0
[attach-enode] #14282 0
[attach-enode] #14021 0
[attach-enode] #14455 0
[attach-enode] #14463 0
[attach-enode] #14200 0
[attach-enode] #14528 0
[attach-enode] #14533 0
[attach-enode] #5644 0
[attach-enode] #13916 0
[attach-enode] #14645 0
[attach-enode] #14236 0
[attach-enode] #14097 0
[attach-enode] #14098 0
[attach-enode] #14338 0
[attach-enode] #14349 0
[attach-enode] #14341 0
[attach-enode] #14342 0
[attach-enode] #14503 0
[attach-enode] #14305 0
[attach-enode] #14306 0
[attach-enode] #14379 0
[attach-enode] #14389 0
[attach-enode] #14390 0
[assign] #13733 axiom
[assign] #13737 axiom
[assign] #13741 axiom
[assign] #13745 axiom
[assign] #13749 axiom
[assign] #13753 axiom
[assign] #13757 axiom
[assign] #13761 axiom
[assign] #13765 axiom
[assign] #13769 axiom
[assign] #13773 axiom
[assign] #13774 axiom
[assign] #13775 axiom
[assign] #13779 axiom
[assign] #3726 axiom
[assign] #14030 axiom
[assign] #13450 axiom
[attach-enode] #13791 0
[assign] #13791 axiom
[attach-enode] #13793 0
[assign] #13793 axiom
[attach-enode] #13862 0
[assign] #13862 axiom
[attach-enode] #14193 0
[assign] #14193 axiom
[attach-enode] #13910 0
[assign] #13910 axiom
[attach-enode] #14377 0
[assign] #14377 axiom
[mk-app] #13599 <= #9489 #7071
[mk-app] #13780 >= #9489 #7071
[attach-meaning] #363 arith (- 1)
[mk-app] #13781 <= #13808 #334
[mk-app] #13786 = #3675 #6750
[mk-app] #13789 <= #3675 #6750
[mk-app] #13809 >= #3675 #6750
[attach-enode] #13786 0
[attach-enode] #14249 0
[mk-app] #13844 <= #281 #282
[assign] #13844 justification -1: 41
[assign] #14413 justification -1: 41
[assign] #9115 clause 1485 -2211
[assign] #9122 clause 1488 -2212
[assign] #9129 clause 1491 -2213
[assign] #9136 clause 1494 -2214
[assign] #9143 clause 1497 -2215
[assign] #9150 clause 1500 -2216
[assign] #9157 clause 1503 -2217
[assign] #9164 clause 1506 -2218
[assign] #9171 clause 1509 -2219
[assign] #9178 clause 1512 -2220
[assign] #9185 clause 1515 -2221
[assign] #9390 clause 1518 -2222
[assign] #9421 clause 1521 -2223
[assign] #9488 clause 1526 -2224
[assign] #3711 clause 1848 -1850
[assign] #13193 clause 1898 -1850
[assign] #13227 clause 1913 -1850
[assign] #9117 bin 1485
[assign] #9124 bin 1488
[assign] #9131 bin 1491
[assign] #9138 bin 1494
[assign] #9145 bin 1497
[assign] #9152 bin 1500
[assign] #9159 bin 1503
[assign] #9166 bin 1506
[assign] #9173 bin 1509
[assign] #9180 bin 1512
[assign] #9386 bin 1515
[assign] #12802 bin 1518
[assign] #12820 bin 1521
[assign] #9490 bin 1526
[assign] #13599 clause 2231 -1527
[assign] #13780 clause 2232 -1527
[assign] (not #4410) clause -1777 -2231
[assign] #4425 clause 1775 -2231
[assign] #4426 clause 1774 -2232
[assign] #4412 bin -1777
[assign] #4397 bin -1777
[assign] (not #4163) clause -1776 -1774 -1775
[assign] #13642 justification -1: 1967 717 715
[mk-app] #13847 = #3764 #13814
[attach-meaning] #363 arith (- 1)
[mk-app] #13849 <= #13846 #334
[assign] #13847 justification -1: 1961
[attach-enode] #13847 0
[assign] #13849 justification -1: 2239
[assign] #13848 justification -1: 2239
[mk-app] #13852 = #3865 #14045
[attach-meaning] #363 arith (- 1)
[mk-app] #13972 >= #14062 #334
[assign] #13852 justification -1: 1965
[attach-enode] #13852 0
[assign] #14063 justification -1: 2241
[assign] #13972 justification -1: 2241
[mk-app] #13981 = #3865 #13817
[attach-meaning] #363 arith (- 1)
[mk-app] #13982 >= #13850 #334
[assign] #13981 justification -1: 1965 1966 1962 1961
[attach-enode] #13981 0
[assign] #13851 justification -1: 2243
[assign] #13982 justification -1: 2243
[new-match] 1516426634 #550 #548 #289 #3873 ; #3838
[new-match] 2116171513 #550 #548 #289 #3764 ; #3594
[eq-expl] #14035 cg (#13443 #3902) ; #3903
[eq-expl] #14126 root
[new-match] 2351219576 #12724 #8368 #8402 #14126 #14035 ; #14127
[new-match] 21078801 #12724 #8368 #8402 #3839 #3903 ; #3831
[new-match] 369883630 #2106 #2105 #8401 ; #8402
[new-match] 1719175530 #169 #168 #3838 ; #3839
[eq-expl] #13813 cg (#13435 #3922) ; #3923
[eq-expl] #13814 cg (#13813 #3923) ; #3764
[new-match] 2199899837 #169 #168 #13814 ; #13823
[new-match] 684371347 #169 #168 #3594 ; #14126
[new-match] 3774712549 #169 #168 #334 ; #5644
[eq-expl] #14305 root
[new-match] 2863383361 #169 #168 #14305 ; #14306
[eq-expl] #14097 root
[new-match] 1868059754 #11154 #358 #14097 #280 ; #14098
[new-match] 1845190231 #6583 #6574 #3903 #244 #120 ; #14236
[new-match] 1713789080 #6575 #6574 #3903 #244 #120 ; #14236
[new-match] 2212902533 #7286 #7281 #3922 ; #3726
[new-match] 2277648693 #11105 #11104 #3903 ; #13450 (#1463 #3204)
[new-match] 3880594274 #1513 #1512 #3902 ; #13450 (#1463 #3204) (#3903 #3903)
[new-match] 204478095 #194 #190 #3839 ; #13791 (#184 #184)
[new-match] 3212635275 #460 #459 #3838 ; #13791 (#184 #184) (#3839 #3839)
[new-match] 3619766557 #2117 #2113 #8402 ; #13793 (#2107 #2107)
[new-match] 2087446730 #2120 #2119 #8401 ; #13793 (#2107 #2107) (#8402 #8402)
[eq-expl] #13823 root
[new-match] 1402146131 #194 #190 #13823 ; #13862 (#184 #184)
[new-match] 3679769547 #460 #459 #13814 ; #13862 (#184 #184) (#13823 #13823)
[new-match] 3207527226 #194 #190 #14126 ; #14193 (#184 #184)
[new-match] 3779800210 #460 #459 #3594 ; #14193 (#184 #184) (#14126 #14126)
[eq-expl] #5644 root
[new-match] 890010643 #194 #190 #5644 ; #13910 (#184 #184)
[new-match] 139619888 #460 #459 #334 ; #13910 (#184 #184) (#5644 #5644)
[eq-expl] #14306 root
[new-match] 554490394 #194 #190 #14306 ; #14377 (#184 #184)
[new-match] 667376401 #460 #459 #14305 ; #14377 (#184 #184) (#14306 #14306)
[new-match] 2354417931 #565 #557 #289 #3865 ; #14305
[eq-expl] #3719 root
[new-match] 826179143 #12520 #7315 #3719 #3922 ; #3711
[new-match] 3211196192 #2862 #2861 #8617 ; #8618
[new-match] 1673131370 #2862 #2861 #8623 ; #8624
[new-match] 3020456188 #2862 #2861 #8629 ; #8630
[new-match] 3973248946 #2862 #2861 #8635 ; #8636
[new-match] 437125188 #2862 #2861 #8641 ; #8642
[new-match] 2760103317 #2862 #2861 #8647 ; #8648
[new-match] 3270381655 #2862 #2861 #8653 ; #8654
[new-match] 2717061180 #2862 #2861 #8659 ; #8660
[new-match] 746003424 #2862 #2861 #8665 ; #8666
[new-match] 3928515780 #2862 #2861 #8671 ; #8672
[mk-app] #13974 + #289 #13782 #3873
[inst-discovered] theory-solving 0x0 arith# ; #13783
[mk-app] #14012 = #13783 #13974
[instance] 0x0 #14012
[attach-enode] #14012 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14012 + #13782 #3873
[attach-meaning] #363 arith (- 1)
[mk-app] #14012 = #13787 #289
[mk-app] #14022 = #13974 #334
[inst-discovered] theory-solving 0x0 arith# ; #14022
[mk-app] #14094 = #14022 #14012
[instance] 0x0 #14094
[attach-enode] #14094 0
[end-of-instance]
[mk-app] #13974 not #550
[mk-app] #14022 or #13974 #14012
[instance] 1516426634 ; 1
[attach-enode] #14012 1
[mk-app] #14094 <= #13787 #289
[assign] #14012 justification -1: 76
[end-of-instance]
[mk-app] #13902 + #289 #14025 #3764
[inst-discovered] theory-solving 0x0 arith# ; #14026
[mk-app] #14096 = #14026 #13902
[instance] 0x0 #14096
[attach-enode] #14096 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14096 + #14025 #3764
[attach-meaning] #363 arith (- 1)
[mk-app] #14096 = #14017 #289
[mk-app] #14101 = #13902 #334
[inst-discovered] theory-solving 0x0 arith# ; #14101
[mk-app] #14190 = #14101 #14096
[instance] 0x0 #14190
[attach-enode] #14190 0
[end-of-instance]
[mk-app] #13902 or #13974 #14096
[instance] 2116171513 ; 1
[attach-enode] #14096 1
[assign] #14096 justification -1: 76
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14198
[mk-app] #14101 = #14198 #14198
[instance] 0x0 #14101
[attach-enode] #14101 0
[end-of-instance]
[mk-app] #14101 not #12724
[mk-app] #14190 or #14101 #13643 #14194 #13794 #14197
[instance] 2351219576 ; 2
[attach-enode] #14195 2
[attach-enode] #8363 2
[attach-enode] #8364 2
[attach-enode] #14196 2
[attach-enode] #14197 2
[assign] #14197 justification -1: 1418 2086 2226 2228
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13797
[mk-app] #14216 = #13797 #13797
[instance] 0x0 #14216
[attach-enode] #14216 0
[end-of-instance]
[mk-app] #14216 or #14101 #13643 #13792 #13794 #13796
[instance] 21078801 ; 1
[attach-enode] #13795 1
[attach-enode] #13796 1
[assign] #13796 justification -1: 1418 2086 2225 2226
[end-of-instance]
[mk-app] #14280 not #2106
[mk-app] #14284 or #14280 #13801
[instance] 369883630 ; 1
[attach-enode] #13800 1
[attach-enode] #13804 1
[attach-enode] #13801 1
[assign] #13801 justification -1: 561
[end-of-instance]
[mk-app] #14221 not #169
[mk-app] #14261 or #14221 #13806
[instance] 1719175530 ; 1
[attach-enode] #13806 1
[attach-meaning] #363 arith (- 1)
[assign] #13806 justification -1: 25
[end-of-instance]
[mk-app] #14289 or #14221 #13882
[instance] 2199899837 ; 2
[attach-enode] #13880 2
[attach-enode] #13881 2
[attach-enode] #13882 2
[assign] #13882 justification -1: 25
[end-of-instance]
[mk-app] #14290 or #14221 #14201
[instance] 684371347 ; 2
[attach-enode] #14201 2
[attach-meaning] #363 arith (- 1)
[mk-app] #14248 >= #14533 #334
[assign] #14201 justification -1: 25
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14202 = #13916 #334
[inst-discovered] theory-solving 0x0 arith# ; #13917
[mk-app] #14199 = #13917 #14202
[instance] 0x0 #14199
[attach-enode] #14199 0
[end-of-instance]
[mk-app] #14199 or #14221 #14202
[instance] 3774712549 ; 3
[attach-enode] #14202 3
[assign] #14202 justification -1: 25
[end-of-instance]
[mk-app] #14191 or #14221 #14392
[instance] 2863383361 ; 5
[attach-enode] #14392 5
[assign] #14392 justification -1: 25
[end-of-instance]
[mk-app] #14192 + #14325 #14098
[inst-discovered] theory-solving 0x0 arith# ; #14326
[mk-app] #14188 = #14326 #14192
[instance] 0x0 #14188
[attach-enode] #14188 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14188 + #281 #14338
[mk-app] #14177 <= #14188 #334
[mk-app] #14104 >= #14192 #334
[inst-discovered] theory-solving 0x0 arith# ; #14104
[mk-app] #14105 = #14104 #14177
[instance] 0x0 #14105
[attach-enode] #14105 0
[end-of-instance]
[mk-app] #14192 or #14329 #14343 #14332
[inst-discovered] theory-solving 0x0 basic# ; #14192
[mk-app] #14104 = #14192 #14192
[instance] 0x0 #14104
[attach-enode] #14104 0
[end-of-instance]
[mk-app] #14104 not #14192
[mk-app] #14105 or #14324 #14177 #14104
[inst-discovered] theory-solving 0x0 basic# ; #14105
[mk-app] #14103 = #14105 #14105
[instance] 0x0 #14103
[attach-enode] #14103 0
[end-of-instance]
[mk-app] #14103 not #14105
[mk-app] #14102 not #11154
[mk-app] #14099 or #14102 #14103
[instance] 1868059754 ; 5
[attach-enode] #14188 5
[attach-enode] #14332 5
[attach-meaning] #363 arith (- 1)
[assign] (not #14105) justification -1: 55
[end-of-instance]
[mk-app] #14100 not #6583
[mk-app] #14296 or #14100 #13451 #14301
[instance] 1845190231 ; 4
[attach-enode] #14301 4
[assign] #14301 justification -1: 1157 1967
[end-of-instance]
[mk-app] #14297 not #6575
[mk-app] #14294 or #14297 #14308
[instance] 1713789080 ; 4
[attach-enode] #14307 4
[attach-enode] #14308 4
[assign] #14308 justification -1: 1156
[end-of-instance]
[mk-app] #14295 I #13805
[mk-app] #13909 = #3839 #14295
[mk-app] #14293 or #13792 #13909
[mk-app] #14319 not #194
[mk-app] #14320 or #14319 #13792 #13909
[instance] 204478095 ; 2
[attach-enode] #14295 2
[attach-enode] #13909 2
[assign] #13909 justification -1: 28 2225
[end-of-instance]
[mk-app] #14321 Poly%u_tokenizer!lex.Class. #13800
[mk-app] #14322 = #8402 #14321
[mk-app] #14339 or #13794 #14322
[mk-app] #14340 not #2117
[mk-app] #14337 or #14340 #13794 #14322
[instance] 3619766557 ; 2
[attach-enode] #14321 2
[attach-enode] #14322 2
[assign] #14322 justification -1: 562 2226
[end-of-instance]
[mk-app] #14344 I #14203
[mk-app] #14345 = #13823 #14344
[mk-app] #14370 or #13863 #14345
[mk-app] #14393 or #14319 #13863 #14345
[instance] 1402146131 ; 3
[attach-enode] #14344 3
[attach-enode] #14345 3
[assign] #14345 justification -1: 28 2227
[end-of-instance]
[mk-app] #14394 I #14200
[mk-app] #14400 = #14126 #14394
[mk-app] #14401 or #14194 #14400
[mk-app] #14399 or #14319 #14194 #14400
[instance] 3207527226 ; 3
[attach-enode] #14394 3
[attach-enode] #14400 3
[assign] #14400 justification -1: 28 2228
[end-of-instance]
[mk-app] #14403 I #13916
[mk-app] #14404 = #5644 #14403
[mk-app] #14405 or #13911 #14404
[mk-app] #14411 or #14319 #13911 #14404
[instance] 890010643 ; 4
[attach-enode] #14403 4
[attach-enode] #14404 4
[assign] #14404 justification -1: 28 2229
[end-of-instance]
[mk-app] #14414 = #14306 #14670
[mk-app] #14415 or #14378 #14414
[mk-app] #14416 or #14319 #14378 #14414
[instance] 554490394 ; 6
[attach-enode] #14670 6
[attach-enode] #14414 6
[assign] #14414 justification -1: 28 2230
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14433 + #13456 #14305
[attach-meaning] #363 arith (- 1)
[mk-app] #14434 * #363 #14305
[mk-app] #14454 + #3865 #14434
[mk-app] #14433 = #14454 #289
[inst-discovered] theory-solving 0x0 arith# ; #14398
[mk-app] #14462 = #14398 #14433
[instance] 0x0 #14462
[attach-enode] #14462 0
[end-of-instance]
[mk-app] #14462 or #13461 #14433
[instance] 2354417931 ; 5
[attach-enode] #14434 5
[attach-enode] #14454 5
[attach-enode] #14433 5
[mk-app] #14458 <= #14454 #289
[mk-app] #14500 >= #14454 #289
[assign] #14433 justification -1: 77
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13836
[mk-app] #14501 = #13836 #13836
[instance] 0x0 #14501
[attach-enode] #14501 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #13838
[mk-app] #14501 = #13838 #13838
[instance] 0x0 #14501
[attach-enode] #14501 0
[end-of-instance]
[mk-app] #14501 not #13838
[inst-discovered] theory-solving 0x0 basic# ; #13841
[mk-app] #14501 = #13841 #13841
[instance] 0x0 #14501
[attach-enode] #14501 0
[end-of-instance]
[mk-app] #14501 not #12520
[mk-app] #14459 or #14501 #13841
[instance] 826179143 ; 1
[attach-enode] #7290 1
[attach-enode] #13811 1
[attach-enode] #13835 1
[attach-enode] #13839 1
[assign] (not #13840) justification -1: 1238
[end-of-instance]
[mk-app] #14502 or #13603 #13735
[instance] 3211196192 ; 1
[attach-enode] #13734 1
[attach-enode] #13735 1
[assign] #13735 justification -1: 679
[end-of-instance]
[mk-app] #14529 or #13603 #13739
[instance] 1673131370 ; 1
[attach-enode] #13738 1
[attach-enode] #13739 1
[assign] #13739 justification -1: 679
[end-of-instance]
[mk-app] #14535 or #13603 #13743
[instance] 3020456188 ; 1
[attach-enode] #13742 1
[attach-enode] #13743 1
[assign] #13743 justification -1: 679
[end-of-instance]
[mk-app] #14536 or #13603 #13747
[instance] 3973248946 ; 1
[attach-enode] #13746 1
[attach-enode] #13747 1
[assign] #13747 justification -1: 679
[end-of-instance]
[mk-app] #14530 or #13603 #13751
[instance] 437125188 ; 1
[attach-enode] #13750 1
[attach-enode] #13751 1
[assign] #13751 justification -1: 679
[end-of-instance]
[mk-app] #14538 or #13603 #13755
[instance] 2760103317 ; 1
[attach-enode] #13754 1
[attach-enode] #13755 1
[assign] #13755 justification -1: 679
[end-of-instance]
[mk-app] #14539 or #13603 #13759
[instance] 3270381655 ; 1
[attach-enode] #13758 1
[attach-enode] #13759 1
[assign] #13759 justification -1: 679
[end-of-instance]
[mk-app] #14540 or #13603 #13763
[instance] 2717061180 ; 1
[attach-enode] #13762 1
[attach-enode] #13763 1
[assign] #13763 justification -1: 679
[end-of-instance]
[mk-app] #14542 or #13603 #13767
[instance] 746003424 ; 1
[attach-enode] #13766 1
[attach-enode] #13767 1
[assign] #13767 justification -1: 679
[end-of-instance]
[mk-app] #14579 or #13603 #13771
[instance] 3928515780 ; 1
[attach-enode] #13770 1
[attach-enode] #13771 1
[assign] #13771 justification -1: 679
[end-of-instance]
[assign] #13646 clause 2087 -2086
[assign] #14094 clause 2246 -2245
[assign] #13790 clause 2180 -2245
[assign] #14018 clause 2172 -2247
[assign] #14011 clause 2175 -2247
[assign] #14291 clause 2182 -2252
[assign] #14292 clause 2184 -2252
[assign] #14537 clause 2191 -2254
[assign] #14248 clause 2255 -2254
[assign] #14651 clause 2194 -2256
[assign] #14633 clause 2257 -2256
[assign] #14323 clause 2195 2262
[assign] (not #14177) clause -2259 2262
[assign] #14192 clause 2261 2262
[assign] #14458 clause 2272 -2271
[assign] #14500 clause 2273 -2271
[assign] #14266 clause 2181 -2182 -2180
[assign] #13839 justification -1: 1848 1961
[attach-meaning] #363 arith (- 1)
[mk-app] #14580 + #14305 #14389
[mk-app] #14625 <= #14580 #334
[mk-app] #14626 >= #14580 #334
[attach-enode] #14580 0
[assign] #14625 justification -1: 2258
[assign] #14626 justification -1: 2258
[mk-app] #14658 = #3764 #14203
[attach-meaning] #363 arith (- 1)
[assign] #14658 justification -1: 2253 1961
[attach-enode] #14658 0
[assign] #13963 justification -1: 2292
[assign] #14222 justification -1: 2292
[eq-expl] #14126 lit #14400 ; #14394
[eq-expl] #14394 root
[eq-expl] #8402 lit #14322 ; #14321
[eq-expl] #14321 root
[eq-expl] #8364 root
[new-match] 65954497 #8330 #8329 #8364 #8402 #14126 #3903 ; #14196
[eq-expl] #8363 root
[new-match] 1588217564 #12717 #8347 #8363 #8402 #14126 #3903 ; #14196 (#8364 #8364)
[eq-expl] #3839 lit #13909 ; #14295
[eq-expl] #14295 root
[new-match] 3610188359 #8330 #8329 #8364 #8402 #3839 #3903 ; #13795
[new-match] 2394611561 #12717 #8347 #8363 #8402 #3839 #3903 ; #13795 (#8364 #8364)
[eq-expl] #13805 root
[new-match] 1708539367 #169 #168 #13805 ; #14295
[eq-expl] #14200 root
[new-match] 3171439758 #169 #168 #14200 ; #14394
[eq-expl] #14379 root
[new-match] 4206474817 #169 #168 #14379 ; #14670
[eq-expl] #14236 lit #14308 ; #14307
[eq-expl] #14307 root
[new-match] 658052399 #525 #247 #14236 ; #14301 (#244 #244)
[new-match] 3842657828 #251 #247 #14236 ; #14301 (#244 #244)
[eq-expl] #14306 lit #14414 ; #14670
[eq-expl] #14670 root
[new-match] 2997572347 #11858 #3908 #14306 #3903 #244 #120 ; #14307
[new-match] 752338805 #6591 #6590 #6613 #3903 ; #13645
[new-match] 1566333725 #11027 #6605 #6612 #3903 ; #13645 (#6613 #6613)
[new-match] 3914821708 #460 #459 #13805 ; #13791 (#184 #184) (#3839 #14295)
[new-match] 1207913921 #460 #459 #14200 ; #14193 (#184 #184) (#14126 #14394)
[new-match] 3464572355 #460 #459 #14379 ; #14377 (#184 #184) (#14306 #14670)
[mk-app] #14659 u_tokenizer!lex.rec%scan.? #3903 #14394 #14321 #8364
[mk-app] #14663 u_tokenizer!lex.rec%scan.? #3903 #14394 #14321 #6587
[mk-app] #14664 = #14659 #14663
[mk-app] #14665 not #8330
[mk-app] #14666 or #14665 #14664
[instance] 65954497 ; 3
[attach-enode] #14659 3
[attach-enode] #6587 3
[attach-enode] #14663 3
[attach-enode] #14664 3
[assign] #14664 justification -1: 1415
[end-of-instance]
[mk-app] #14668 has_type #14394 #184
[mk-app] #14669 not #14668
[mk-app] #14657 has_type #14321 #2107
[mk-app] #14652 not #14657
[mk-app] #14653 %I #14394
[mk-app] #14632 >= #14653 #334
[mk-app] #14624 not #14632
[mk-app] #14613 + #14653 #13456
[mk-app] #14610 >= #14613 #334
[mk-app] #14460 vstd!seq.Seq.index.? #120 #244 #3903 #14394
[mk-app] #14440 u_tokenizer!lex.within.? #14321 #14460
[mk-app] #14512 not #14440
[mk-app] #14534 or #14624 #14610 #14512
[mk-app] #14578 Add #14653 #289
[mk-app] #14588 I #14578
[mk-app] #14603 u_tokenizer!lex.rec%scan.? #3903 #14588 #14321 #8363
[mk-app] #14388 if #14534 #14653 #14603
[mk-app] #14584 = #14659 #14388
[mk-app] #13888 or #13643 #14669 #14652 #14584
[mk-app] #14571 + #13456 #14653
[inst-discovered] theory-solving 0x0 arith# ; #14613
[mk-app] #14029 = #14613 #14571
[instance] 0x0 #14029
[attach-enode] #14029 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14029 * #363 #14653
[mk-app] #14564 + #3865 #14029
[mk-app] #13785 <= #14564 #334
[mk-app] #14510 >= #14571 #334
[inst-discovered] theory-solving 0x0 arith# ; #14510
[mk-app] #13617 = #14510 #13785
[instance] 0x0 #13617
[attach-enode] #13617 0
[end-of-instance]
[mk-app] #14571 or #14624 #13785 #14512
[inst-discovered] theory-solving 0x0 basic# ; #14571
[mk-app] #14510 = #14571 #14571
[instance] 0x0 #14510
[attach-enode] #14510 0
[end-of-instance]
[mk-app] #14510 if #14571 #14653 #14603
[mk-app] #13617 = #14659 #14510
[mk-app] #14506 or #13643 #14669 #14652 #13617
[inst-discovered] theory-solving 0x0 basic# ; #14506
[mk-app] #14505 = #14506 #14506
[instance] 0x0 #14505
[attach-enode] #14505 0
[end-of-instance]
[mk-app] #14505 not #12717
[mk-app] #14561 or #14505 #13643 #14669 #14652 #13617
[instance] 1588217564 ; 3
[attach-enode] #14668 3
[attach-enode] #14657 3
[mk-app] #14120 = #14510 #14653
[mk-app] #14568 = #14510 #14603
[attach-enode] #14510 3
[attach-enode] #14653 3
[attach-enode] #14029 3
[attach-enode] #14564 3
[attach-enode] #14460 3
[attach-enode] #14440 3
[attach-enode] #14578 3
[attach-enode] #14588 3
[attach-enode] #14603 3
[attach-enode] #14120 3
[attach-enode] #14568 3
[attach-enode] #13617 3
[end-of-instance]
[mk-app] #14506 u_tokenizer!lex.rec%scan.? #3903 #14295 #14321 #8364
[mk-app] #14660 u_tokenizer!lex.rec%scan.? #3903 #14295 #14321 #6587
[mk-app] #14567 = #14506 #14660
[mk-app] #14667 or #14665 #14567
[instance] 3610188359 ; 3
[attach-enode] #14506 3
[attach-enode] #14660 3
[attach-enode] #14567 3
[assign] #14567 justification -1: 1415
[end-of-instance]
[mk-app] #14662 has_type #14295 #184
[mk-app] #14661 not #14662
[mk-app] #14576 %I #14295
[mk-app] #14577 >= #14576 #334
[mk-app] #14541 not #14577
[mk-app] #13843 + #14576 #13456
[mk-app] #14532 >= #13843 #334
[mk-app] #13945 vstd!seq.Seq.index.? #120 #244 #3903 #14295
[mk-app] #14527 u_tokenizer!lex.within.? #14321 #13945
[mk-app] #14259 not #14527
[mk-app] #14531 or #14541 #14532 #14259
[mk-app] #14498 Add #14576 #289
[mk-app] #14499 I #14498
[mk-app] #14461 u_tokenizer!lex.rec%scan.? #3903 #14499 #14321 #8363
[mk-app] #14368 if #14531 #14576 #14461
[mk-app] #14457 = #14506 #14368
[mk-app] #14436 or #13643 #14661 #14652 #14457
[mk-app] #14435 + #13456 #14576
[inst-discovered] theory-solving 0x0 arith# ; #13843
[mk-app] #14432 = #13843 #14435
[instance] 0x0 #14432
[attach-enode] #14432 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14432 * #363 #14576
[mk-app] #14417 + #3865 #14432
[mk-app] #14418 <= #14417 #334
[mk-app] #14410 >= #14435 #334
[inst-discovered] theory-solving 0x0 arith# ; #14410
[mk-app] #14412 = #14410 #14418
[instance] 0x0 #14412
[attach-enode] #14412 0
[end-of-instance]
[mk-app] #14435 or #14541 #14418 #14259
[inst-discovered] theory-solving 0x0 basic# ; #14435
[mk-app] #14410 = #14435 #14435
[instance] 0x0 #14410
[attach-enode] #14410 0
[end-of-instance]
[mk-app] #14410 if #14435 #14576 #14461
[mk-app] #14412 = #14506 #14410
[mk-app] #14408 or #13643 #14661 #14652 #14412
[inst-discovered] theory-solving 0x0 basic# ; #14408
[mk-app] #14409 = #14408 #14408
[instance] 0x0 #14409
[attach-enode] #14409 0
[end-of-instance]
[mk-app] #14409 or #14505 #13643 #14661 #14652 #14412
[instance] 2394611561 ; 3
[attach-enode] #14662 3
[mk-app] #14406 = #14410 #14576
[mk-app] #14407 = #14410 #14461
[attach-enode] #14410 3
[attach-enode] #14576 3
[attach-enode] #14432 3
[attach-enode] #14417 3
[attach-enode] #13945 3
[attach-enode] #14527 3
[attach-enode] #14498 3
[attach-enode] #14499 3
[attach-enode] #14461 3
[attach-enode] #14406 3
[attach-enode] #14407 3
[attach-enode] #14412 3
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14356
[mk-app] #14408 = #14356 #14356
[instance] 0x0 #14408
[attach-enode] #14408 0
[end-of-instance]
[mk-app] #14408 not #525
[mk-app] #14402 or #14408 #14353 #14355
[instance] 658052399 ; 5
[attach-enode] #14352 5
[attach-enode] #14354 5
[attach-enode] #14355 5
[end-of-instance]
[mk-app] #14396 not #251
[mk-app] #14395 or #14396 #14353 #14359
[instance] 3842657828 ; 5
[attach-enode] #14358 5
[attach-enode] #14359 5
[end-of-instance]
[mk-app] #14371 not #6591
[mk-app] #14376 or #14371 #14229
[instance] 752338805 ; 3
[attach-enode] #14228 3
[attach-enode] #14229 3
[assign] #14229 justification -1: 1159
[end-of-instance]
[mk-app] #14374 not #11027
[mk-app] #14375 or #14374 #13643 #14255
[instance] 1566333725 ; 3
[mk-app] #14372 = #14233 #334
[mk-app] #14373 = #14232 #14233
[attach-enode] #14233 3
[attach-enode] #14242 3
[attach-enode] #14243 3
[attach-enode] #14237 3
[attach-enode] #14232 3
[attach-enode] #14372 3
[attach-enode] #14373 3
[attach-enode] #14255 3
[assign] #14255 justification -1: 1160 2086
[end-of-instance]
[assign] (not #13838) clause -2277 -2278 2279
[assign] (not #14215) clause -2176 -2177 -2175
[assign] #13811 clause 2274 2277
[assign] #13832 clause 2165 2277
[assign] #13836 clause 2276 2277
[assign] #347 clause 1897 -2165
[assign] (not #365) clause -1895 -1897 -1898
[assign] #1160 clause 1851 1895
[assign] #3676 clause 1852 1895
[assign] #3669 clause 1853 1895
[assign] #3661 clause 1854 1895
[assign] #3654 clause 1856 1895
[assign] #434 clause 1894 1895
[assign] (not #13255) clause -1855 -1856
[mk-app] #14369 is #3653
[attach-enode] #14369 0
[mk-app] #14361 = #3719 #13860
[mk-app] #14357 => #1160 #14361
[inst-discovered] theory-solving 0x0 datatype# ; #3719
[instance] 0 #14357
[end-of-instance]
[attach-enode] #13859 0
[attach-enode] #13860 0
[mk-app] #14361 = #13859 #13861
[new-match] 0 datatype#15 datatype#12 #13859 ; #13860
[instance] 0 #14361
[attach-enode] #13861 0
[end-of-instance]
[assign] #14668 justification -1: 2228 2268
[assign] #14657 justification -1: 2226 2266
[assign] #14662 justification -1: 2225 2265
[assign] #14352 justification -1: 2263 2264
[assign] (not #13804) justification -1: -1855 1856 2251
[mk-app] #14361 = #14200 #14653
[attach-meaning] #363 arith (- 1)
[mk-app] #14357 + #14200 #14029
[mk-app] #14346 <= #14357 #334
[mk-app] #14347 >= #14357 #334
[assign] #14361 justification -1: 2268
[attach-enode] #14361 0
[attach-enode] #14357 0
[assign] #14346 justification -1: 2320
[assign] #14347 justification -1: 2320
[mk-app] #14348 = #13805 #14576
[attach-meaning] #363 arith (- 1)
[mk-app] #14317 + #13805 #14432
[mk-app] #14318 <= #14317 #334
[mk-app] #14313 >= #14317 #334
[assign] #14348 justification -1: 2265
[attach-enode] #14348 0
[attach-enode] #14317 0
[assign] #14318 justification -1: 2323
[assign] #14313 justification -1: 2323
[eq-expl] #6587 root
[new-match] 2894837464 #8330 #8329 #6587 #14321 #14394 #3903 ; #14663
[new-match] 2044186827 #8330 #8329 #6587 #14321 #14295 #3903 ; #14660
[new-match] 4069469454 #6591 #6590 #6587 #3903 ; #14228
[eq-expl] #3704 root
[eq-expl] #7290 root
[eq-expl] #3705 root
[new-match] 605875641 #1746 #1743 #3704 #7229 #7289 ; #13811 (#7290 #7290) #3705 (#3704 #3704) #3696 (#7289 #7289) (#7229 #7229) (#3705 #3705)
[eq-expl] #13859 ax ; #13861
[eq-expl] #13861 root
[eq-expl] #3719 unknown ; #13860
[eq-expl] #13860 root
[new-match] 1793823357 #1728 #1724 #13859 #7229 #7289 ; #13811 (#7290 #7290) (#3704 #3704) (#3719 #13860)
[new-match] 3204777225 #1713 #1709 #3704 #7229 #7289 ; #13811 (#7290 #7290)
[new-match] 1678831805 #1702 #1701 #3719 ; #3704
[new-match] 2571206668 #2775 #2774 #3697 ; #3683
[new-match] 674221547 #1739 #1734 #3705 #7229 #7289 ; #3696
[mk-app] #14314 not #1746
[mk-app] #14309 or #14314 #13812 #14027
[instance] 605875641 ; 2
[attach-enode] #14027 2
[assign] #14027 justification -1: 517 2274
[end-of-instance]
[mk-app] #14310 or #4783 #13812 #13854
[instance] 3204777225 ; 2
[attach-enode] #13853 2
[attach-enode] #13854 2
[assign] #13854 justification -1: 513 2274
[end-of-instance]
[mk-app] #14303 or #13330 #14080
[instance] 1678831805 ; 1
[attach-enode] #14074 1
[attach-enode] #14075 1
[attach-enode] #14080 1
[assign] #14080 justification -1: 512
[end-of-instance]
[mk-app] #14304 = #13869 #13251
[mk-app] #14300 not #2775
[mk-app] #14010 or #14300 #14304
[instance] 2571206668 ; 1
[attach-enode] #13869 1
[attach-enode] #14304 1
[assign] #14304 justification -1: 670
[end-of-instance]
[mk-app] #13878 not #1739
[mk-app] #14125 or #13878 #13890 #13892
[instance] 674221547 ; 1
[attach-enode] #13889 1
[attach-enode] #13891 1
[attach-enode] #13892 1
[end-of-instance]
[assign] #13617 clause 2302 -2295 -2294
[assign] #14412 clause 2311 -2304 -2295
[assign] #14355 clause 2313 -2312
[assign] #14359 clause 2314 -2312
[assign] #13889 justification -1: 1851 2328 1851
[assign] #14577 clause 2305 -2180 -2182 -1840 -2324
[eq-expl] #3696 root
[new-match] 2172985771 #2782 #2779 #3696 #244 #120 #203 #120 ; #14027 (#7229 #7229) #3697 (#3696 #3696) #3683 (#3697 #13252)
[new-match] 3491131431 #2747 #2743 #3696 #244 #120 #203 #120 ; #14027 (#7229 #7229)
[eq-expl] #14354 cg (#14307 #14236) ; #14097
[new-match] 836643597 #11183 #454 #14354 ; #14355
[new-match] 1862906279 #169 #168 #14354 ; #14358
[eq-expl] #14358 lit #14359 ; #14307
[new-match] 4127071031 #509 #505 #14354 ; #14301 (#244 #244) (#14236 #14358)
[mk-app] #14183 not #2782
[mk-app] #14189 or #14183 #14072 #14070
[instance] 2172985771 ; 3
[attach-enode] #14070 3
[assign] #14070 justification -1: 671 2326
[end-of-instance]
[mk-app] #14182 not #2747
[mk-app] #14225 or #14182 #14072 #14065
[instance] 3491131431 ; 3
[attach-enode] #14069 3
[attach-enode] #14065 3
[assign] #14065 justification -1: 666 2326
[end-of-instance]
[mk-app] #14226 or #4386 #14431
[instance] 836643597 ; 6
[attach-enode] #14419 6
[assign] #14431 justification -1: 60
[end-of-instance]
[assign] #13892 clause 2331 -2330
[assign] #14419 justification -1: 2313 2264
[eq-expl] #3683 cg (#3697 #13252) ; #13869
[eq-expl] #13869 lit #14304 ; #13251
[new-match] 2017834159 #525 #247 #3683 ; #14070 (#244 #244)
[new-match] 3237750056 #251 #247 #3683 ; #14070 (#244 #244)
[new-match] 2604676044 #2736 #2735 #3697 ; #14069
[eq-expl] #3696 lit #13892 ; #13891
[eq-expl] #3704 lit #13854 ; #13853
[eq-expl] #13853 root
[eq-expl] #14074 cg (#13860 #3719) ; #3704
[eq-expl] #3705 cg (#3704 #14074) ; #14075
[eq-expl] #14075 lit #14080 ; #13860
[eq-expl] #13891 cg (#3705 #13860) ; #13861
[eq-expl] #14069 lit #14065 ; #3696
[new-match] 549305367 #11641 #2754 #13251 #13250 #244 #120 #203 #120 ; #14027 (#7229 #7229) (#3696 #14069) (#3697 #13252)
[mk-app] #14219 or #13933 #13914
[inst-discovered] theory-solving 0x0 basic# ; #14219
[mk-app] #14254 = #14219 #14219
[instance] 0x0 #14254
[attach-enode] #14254 0
[end-of-instance]
[mk-app] #14254 or #14408 #13933 #13914
[instance] 2017834159 ; 4
[attach-enode] #13932 4
[attach-enode] #13918 4
[attach-enode] #13914 4
[end-of-instance]
[mk-app] #14219 or #13933 #13887
[mk-app] #14212 or #14396 #13933 #13887
[instance] 3237750056 ; 4
[attach-enode] #13895 4
[attach-enode] #13887 4
[end-of-instance]
[assign] #14430 clause 2205 -2334 -2335
[assign] (not #14343) clause -2198 -2205
[assign] #14328 clause 2196 -2205
[assign] #14332 clause 2260 -2196 2198 -2261
[assign] #14350 clause 2209 -2260
[assign] #14351 clause 2197 -2260
[assign] #13932 justification -1: 2332 2329
[assign] #13914 clause 2337 -2336
[assign] #13887 clause 2338 -2336
[eq-expl] #13918 cg (#13251 #3683) ; #3675
[new-match] 2650835325 #11183 #454 #13918 ; #13914
[eq-expl] #3682 lit #3676 ; #3675
[new-match] 1908524723 #169 #168 #3682 ; #3571
[eq-expl] #3571 cg (#3682 #13918) ; #13895
[eq-expl] #13895 lit #13887 ; #13251
[new-match] 3031462151 #509 #505 #3682 ; #14070 (#244 #244) (#3683 #3571)
[mk-app] #14219 or #4386 #13996
[instance] 2650835325 ; 5
[attach-enode] #13980 5
[assign] #13996 justification -1: 60
[end-of-instance]
[assign] #13980 justification -1: 2337 2329
[assign] #13995 clause 2346 -2339 -2347
[push] 1
[assign] (not #6752) decision axiom
[assign] (not #6769) bin -1188
[assign] #12393 clause 1187 1188 1189
[new-match] 3612831808 #28 #27 #924 ; #6769
[mk-app] #14257 not #28
[mk-app] #14258 or #14257 #13597
[instance] 3612831808 ; 1
[attach-enode] #13596 1
[assign] #13597 justification -1: 2
[end-of-instance]
[assign] (not #13596) clause -2348 -2349
[decide-and-or] #12393 #12389
[push] 2
[assign] (not #6758) decision axiom
[new-match] 1640759853 #169 #168 #6750 ; #6751
[attach-meaning] #363 arith (- 1)
[mk-app] #14264 * #363 #13600
[mk-app] #14265 Int
[attach-meaning] #14265 arith (- 10)
[mk-app] #14287 = #13600 #6750
[inst-discovered] theory-solving 0x0 arith# ; #13601
[mk-app] #14264 = #13601 #14287
[instance] 0x0 #14264
[attach-enode] #14264 0
[end-of-instance]
[mk-app] #14264 or #14221 #14287
[instance] 1640759853 ; 1
[attach-enode] #13600 1
[attach-enode] #14287 1
[assign] #14287 justification -1: 25
[end-of-instance]
[decide-and-or] #12483 #7154
[push] 3
[assign] (not #7105) decision axiom
[new-match] 92221517 #28 #27 #941 ; #7105
[mk-app] #14265 or #14257 #13613
[instance] 92221517 ; 1
[attach-enode] #13612 1
[assign] #13613 justification -1: 2
[end-of-instance]
[assign] (not #13612) clause -2351 -2352
[decide-and-or] #7187 #7186
[push] 4
[assign] (not #7171) decision axiom
[new-match] 3838105047 #28 #27 #942 ; #7171
[mk-app] #14285 or #14257 #13616
[instance] 3838105047 ; 1
[attach-enode] #13615 1
[assign] #13616 justification -1: 2
[end-of-instance]
[assign] (not #13615) clause -2353 -2354
[decide-and-or] #12750 #8936
[push] 5
[assign] (not #8905) decision axiom
[new-match] 2002288480 #28 #27 #953 ; #8905
[mk-app] #14288 or #14257 #13708
[instance] 2002288480 ; 1
[attach-enode] #13707 1
[assign] #13708 justification -1: 2
[end-of-instance]
[assign] (not #13707) clause -2355 -2356
[decide-and-or] #12830 #9485
[push] 6
[assign] (not #9454) decision axiom
[new-match] 2249943340 #28 #27 #978 ; #9454
[mk-app] #14260 or #14257 #13777
[instance] 2249943340 ; 1
[attach-enode] #13776 1
[assign] #13777 justification -1: 2
[end-of-instance]
[assign] (not #13776) clause -2357 -2358
[decide-and-or] #4364 #4369
[push] 7
[assign] (not #4366) decision axiom
[push] 8
[assign] (not #10999) decision axiom
[assign] #13247 clause 1838 1836
[assign] #13249 clause 1843 1836
[assign] #13781 clause 2233 -1843
[assign] #13810 clause 2158 -1843
[assign] #14033 clause 2166 -2158
[assign] #14084 clause 2174 -2158
[assign] (not #14119) clause -2186 -2158 -2180
[assign] #14048 clause 2169 -2158 -2170
[assign] #14513 clause 2190 -2158 -2180 -2191 -2175
[assign] #14646 clause 2193 -2158 -2180 -2194 -2192
[assign] (not #13256) clause -1862 -2158 -1853 -1856 -1894 -1838 -1854
[assign] (not #14249) clause -2237 2186
[assign] #14373 clause 2317 2237
[mk-app] #14122 = #3872 #14036
[attach-meaning] #363 arith (- 1)
[mk-app] #14095 >= #14058 #334
[assign] #14122 justification -1: 1839 1838 1965
[attach-enode] #14122 0
[assign] #14059 justification -1: 2359
[assign] #14095 justification -1: 2359
[eq-expl] #14243 root
[eq-expl] #14237 root
[new-match] 3494986088 #550 #548 #14237 #14243 ; #14232
[new-match] 3053442765 #6562 #6543 #14236 ; #14237
[eq-expl] #14242 root
[new-match] 3697019562 #6591 #6590 #6612 #14242 ; #14243
[new-match] 1346551866 #6527 #6518 #3903 #244 #120 ; #14242
[new-match] 534836843 #6519 #6518 #3903 #244 #120 ; #14242
[mk-app] #13944 + #14178 #14237 #14243
[inst-discovered] theory-solving 0x0 arith# ; #14124
[mk-app] #13952 = #14124 #13944
[instance] 0x0 #13952
[attach-enode] #13952 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #13952 * #363 #14237
[attach-meaning] #363 arith (- 1)
[mk-app] #13798 * #363 #14243
[mk-app] #13951 + #14232 #13952 #13798
[mk-app] #14024 = #13951 #334
[mk-app] #13883 = #13944 #334
[inst-discovered] theory-solving 0x0 arith# ; #13883
[mk-app] #14028 = #13883 #14024
[instance] 0x0 #14028
[attach-enode] #14028 0
[end-of-instance]
[mk-app] #13944 or #13974 #14024
[instance] 3494986088 ; 4
[attach-enode] #13952 4
[attach-enode] #13798 4
[attach-enode] #13951 4
[attach-enode] #14024 4
[mk-app] #13883 <= #13951 #334
[mk-app] #14028 >= #13951 #334
[assign] #14024 justification -1: 76
[end-of-instance]
[mk-app] #13873 u_tokenizer!text.clen.? #14307
[mk-app] #13879 uClip #280 #14354
[mk-app] #13872 >= #13879 #287
[mk-app] #14055 >= #13879 #6533
[mk-app] #14067 >= #13879 #278
[mk-app] #14068 if #14067 #6538 #6537
[mk-app] #14076 if #14055 #14068 #6535
[mk-app] #14077 if #13872 #14076 #289
[mk-app] #14078 = #13873 #14077
[mk-app] #14079 not #6562
[mk-app] #14082 or #14079 #14078
[instance] 3053442765 ; 4
[attach-enode] #13873 4
[mk-app] #14081 = #14076 #14077
[mk-app] #14093 = #14077 #289
[attach-enode] #14077 4
[attach-enode] #13879 4
[mk-app] #14073 = #14068 #14076
[mk-app] #14014 = #14076 #6535
[attach-enode] #14076 4
[mk-app] #14056 = #14068 #6538
[mk-app] #13867 = #14068 #6537
[attach-enode] #14068 4
[attach-enode] #6538 4
[attach-enode] #6537 4
[attach-enode] #14056 4
[attach-enode] #13867 4
[attach-enode] #6535 4
[attach-enode] #14073 4
[attach-enode] #14014 4
[attach-enode] #14081 4
[attach-enode] #14093 4
[attach-enode] #14078 4
[assign] #14078 justification -1: 1152
[end-of-instance]
[mk-app] #14020 or #14371 #14299
[instance] 3697019562 ; 4
[attach-enode] #14298 4
[attach-enode] #14299 4
[assign] #14299 justification -1: 1159
[end-of-instance]
[mk-app] #13997 not #6527
[mk-app] #13807 or #13997 #13451 #14311
[instance] 1346551866 ; 4
[attach-enode] #14311 4
[assign] #14311 justification -1: 1149 1967
[end-of-instance]
[mk-app] #13802 not #6519
[mk-app] #13803 or #13802 #14316
[instance] 534836843 ; 4
[attach-enode] #14315 4
[attach-enode] #14316 4
[assign] #14316 justification -1: 1148
[end-of-instance]
[assign] #14039 clause 2167 -2168
[assign] #14465 clause 2189 -2168 -2177
[assign] #13883 clause 2362 -2361
[assign] #14028 clause 2363 -2361
[assign] #3647 clause 1858 -2167 -2171 -1853 -1854 -2166 -2169 -1856
[assign] #1136 clause 1859 -1858
[assign] (not #433) clause -1893 -1859 -1894
[assign] #3640 clause 1860 1893
[assign] #3586 clause 1861 1893
[assign] #3578 clause 1863 1893
[assign] #639 clause 1892 1893
[assign] (not #14021) clause -2185 -1863
[mk-app] #13799 is #3587
[attach-enode] #13799 0
[assign] (not #14369) justification -1: -2185 1863 1856
[mk-app] #13788 = #13626 #14232
[attach-meaning] #363 arith (- 1)
[mk-app] #13709 + #13626 #14178
[mk-app] #13778 <= #13709 #334
[mk-app] #13772 >= #13709 #334
[assign] #13788 justification -1: 2317 2318 2087 1962
[attach-enode] #13788 0
[attach-enode] #14178 0
[attach-enode] #13709 0
[assign] #13778 justification -1: 2378
[assign] #13772 justification -1: 2378
[mk-app] #13768 = #13879 #14098
[attach-meaning] #363 arith (- 1)
[mk-app] #13764 + #13879 #14338
[mk-app] #13760 <= #13764 #334
[mk-app] #13756 >= #13764 #334
[assign] #13768 justification -1: 2264
[attach-enode] #13768 0
[attach-enode] #13764 0
[assign] #13760 justification -1: 2381
[assign] #13756 justification -1: 2381
[eq-expl] #14242 lit #14316 ; #14315
[eq-expl] #14315 root
[new-match] 3620716430 #6591 #6590 #6587 #14242 ; #14298
[new-match] 3779243209 #11105 #11104 #14242 ; #14311 (#1463 #3204)
[eq-expl] #5644 lit #14404 ; #14403
[eq-expl] #14403 root
[new-match] 1450839493 #11876 #3981 #14306 #5644 #3903 #244 #120 ; #14315
[eq-expl] #3668 lit #3669 ; #3838
[eq-expl] #3838 lit #13806 ; #13805
[eq-expl] #3660 lit #3661 ; #3764
[eq-expl] #3653 lit #3654 ; #8401
[new-match] 3674115839 #10679 #10678 #3653 #3660 #3668 #3902 ; #3640
[mk-app] #13752 not #11105
[mk-app] #13748 or #13752 #14363 #14366
[instance] 3779243209 ; 5
[attach-enode] #14362 5
[attach-enode] #14364 5
[attach-enode] #14365 5
[attach-enode] #14366 5
[end-of-instance]
[mk-app] #13744 ens%u_tokenizer!lex.lemma_scan_on. #13443 #13805 #3764 #8401
[mk-app] #13740 u_tokenizer!lex.scan.? #14035 #14295 #8402
[mk-app] #13736 = #14060 #13740
[mk-app] #13732 = #13744 #13736
[mk-app] #13731 not #10679
[mk-app] #13635 or #13731 #13732
[instance] 3674115839 ; 1
[attach-enode] #13744 1
[attach-enode] #14060 1
[attach-enode] #13740 1
[attach-enode] #13736 1
[assign] #13732 justification -1: 1740
[end-of-instance]
[assign] #14362 justification -1: 2375 715 2376
[assign] #13744 justification -1: 1860 1856 1854 1853 2252 1965
[eq-expl] #13880 cg (#3764 #13814) ; #13823
[eq-expl] #13823 lit #14345 ; #14344
[eq-expl] #14344 root
[new-match] 2326694487 #12724 #8368 #8402 #13880 #14035 ; #14060
[mk-app] #13684 has_type #14344 #184
[mk-app] #13614 not #13684
[mk-app] #14672 u_tokenizer!lex.scan.? #3903 #14344 #14321
[mk-app] #14673 u_tokenizer!lex.rec%scan.? #3903 #14344 #14321 #8364
[mk-app] #14674 = #14672 #14673
[mk-app] #14675 or #13643 #13614 #14652 #14674
[inst-discovered] theory-solving 0x0 basic# ; #14675
[mk-app] #14676 = #14675 #14675
[instance] 0x0 #14676
[attach-enode] #14676 0
[end-of-instance]
[mk-app] #14676 or #14101 #13643 #13614 #14652 #14674
[instance] 2326694487 ; 3
[attach-enode] #13684 3
[attach-enode] #14672 3
[attach-enode] #14673 3
[attach-enode] #14674 3
[end-of-instance]
[assign] #14366 clause 2385 -2384
[assign] #13736 clause 2387 -2386 -2388
[assign] #13684 justification -1: 2227 2267
[eq-expl] #14364 root
[new-match] 2805934816 #1462 #1461 #14364 ; #14365
[eq-expl] #14365 lit #14366 ; #14315
[new-match] 3624421073 #1513 #1512 #14364 ; #14311 (#1463 #3204) (#14242 #14365)
[assign] #14674 clause 2390 -2389
[new-match] 530787444 #8330 #8329 #8364 #14321 #14344 #3903 ; #14673
[new-match] 1946772079 #12717 #8347 #8363 #14321 #14344 #3903 ; #14673 (#8364 #8364)
[mk-app] #14677 u_tokenizer!lex.rec%scan.? #3903 #14344 #14321 #6587
[mk-app] #14678 = #14673 #14677
[mk-app] #14679 or #14665 #14678
[instance] 530787444 ; 4
[attach-enode] #14677 4
[attach-enode] #14678 4
[assign] #14678 justification -1: 1415
[end-of-instance]
[mk-app] #14680 %I #14344
[mk-app] #14681 >= #14680 #334
[mk-app] #14682 not #14681
[mk-app] #14683 + #14680 #13456
[mk-app] #14684 >= #14683 #334
[mk-app] #14685 vstd!seq.Seq.index.? #120 #244 #3903 #14344
[mk-app] #14686 u_tokenizer!lex.within.? #14321 #14685
[mk-app] #14687 not #14686
[mk-app] #14688 or #14682 #14684 #14687
[mk-app] #14689 Add #14680 #289
[mk-app] #14690 I #14689
[mk-app] #14691 u_tokenizer!lex.rec%scan.? #3903 #14690 #14321 #8363
[mk-app] #14692 if #14688 #14680 #14691
[mk-app] #14693 = #14673 #14692
[mk-app] #14694 or #13643 #13614 #14652 #14693
[mk-app] #14695 + #13456 #14680
[inst-discovered] theory-solving 0x0 arith# ; #14683
[mk-app] #14696 = #14683 #14695
[instance] 0x0 #14696
[attach-enode] #14696 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14696 * #363 #14680
[mk-app] #14697 + #3865 #14696
[mk-app] #14698 <= #14697 #334
[mk-app] #14699 >= #14695 #334
[inst-discovered] theory-solving 0x0 arith# ; #14699
[mk-app] #14700 = #14699 #14698
[instance] 0x0 #14700
[attach-enode] #14700 0
[end-of-instance]
[mk-app] #14695 or #14682 #14698 #14687
[inst-discovered] theory-solving 0x0 basic# ; #14695
[mk-app] #14699 = #14695 #14695
[instance] 0x0 #14699
[attach-enode] #14699 0
[end-of-instance]
[mk-app] #14699 if #14695 #14680 #14691
[mk-app] #14700 = #14673 #14699
[mk-app] #14701 or #13643 #13614 #14652 #14700
[inst-discovered] theory-solving 0x0 basic# ; #14701
[mk-app] #14702 = #14701 #14701
[instance] 0x0 #14702
[attach-enode] #14702 0
[end-of-instance]
[mk-app] #14702 or #14505 #13643 #13614 #14652 #14700
[instance] 1946772079 ; 4
[mk-app] #14703 = #14680 #14699
[mk-app] #14704 = #14691 #14699
[attach-enode] #14699 4
[attach-enode] #14680 4
[attach-enode] #14696 4
[attach-enode] #14697 4
[attach-enode] #14685 4
[attach-enode] #14686 4
[attach-enode] #14689 4
[attach-enode] #14690 4
[attach-enode] #14691 4
[attach-enode] #14703 4
[attach-enode] #14704 4
[attach-enode] #14700 4
[assign] #14700 justification -1: 1416 2086 2295 2389
[end-of-instance]
[mk-app] #14701 = #14203 #14680
[attach-meaning] #363 arith (- 1)
[mk-app] #14705 + #14203 #14696
[mk-app] #14706 <= #14705 #334
[mk-app] #14707 >= #14705 #334
[assign] #14701 justification -1: 2267
[attach-enode] #14701 0
[attach-enode] #14705 0
[assign] #14706 justification -1: 2399
[assign] #14707 justification -1: 2399
[new-match] 3377014908 #8330 #8329 #6587 #14321 #14344 #3903 ; #14677
[push] 9
[assign] (not #3364) decision axiom
[assign] (not #13257) clause -1886 1885
[assign] (not #14464) clause -2188 1886 -2177 -2168
[assign] (not #13820) clause -2159 1886 -2160 -2161
[assign] #14087 clause 2173 1886 -2170 -2172
[assign] (not #14283) clause -2183 1886 -2184 -2158
[assign] (not #14456) clause -2187 1886 -2177
[assign] (not #13830) clause -2164 2159 -2165
[assign] #3481 clause 1865 -2173 -2174 -1861 -1863
[assign] #13825 clause 2162 2164
[assign] #13828 clause 2163 2164
[assign] #1117 clause 1866 -1865
[assign] (not #636) clause -1891 -1866 -1892
[assign] #3570 clause 1867 1891
[assign] #3564 clause 1868 1891
[assign] #696 clause 1888 1891
[assign] #710 clause 1890 1891
[assign] (not #14703) justification -1: -1885 1839 1838 2398 2390 2387 2265 2266 2267 1961 1965 2253 2267
[mk-app] #14708 = #14036 #14680
[attach-meaning] #363 arith (- 1)
[mk-app] #14709 + #14036 #14696
[mk-app] #14710 <= #14709 #334
[mk-app] #14711 >= #14709 #334
[attach-enode] #14708 0
[attach-enode] #14709 0
[assign] (not #14710) clause -2403 1886 -2177 -2401 -2168
[assign] #14711 clause 2404 -2168 -2177 -2401 -1845
[assign] (not #14698) clause -2393 1886 -2177 -1846 -2401
[eq-expl] #3563 root
[new-match] 75245469 #12552 #7388 #3563 #3571 #244 #120 ; #3564
[eq-expl] #3593 lit #3586 ; #3594
[eq-expl] #3594 lit #14201 ; #14200
[eq-expl] #3587 lit #3578 ; #8401
[new-match] 1587267544 #13089 #10618 #3587 #3593 #3902 ; #3570
[eq-expl] #13815 cg (#13813 #3923) ; #3911
[eq-expl] #13816 cg (#13815 #3902) ; #3903
[new-match] 1755287860 #11858 #3908 #13823 #13816 #244 #120 ; #13827
[new-match] 472461204 #6732 #6731 #13823 #13816 ; #13824
[new-match] 1095615642 #2763 #2762 #3697 ; #13821
[new-match] 3572552747 #2770 #2767 #3696 #244 #120 #203 #120 ; #13821 (#3697 #3697) #14027 (#3696 #13861) (#3696 #13861) (#7229 #7229)
[mk-app] #14712 not #14118
[inst-discovered] theory-solving 0x0 basic# ; #14712
[mk-app] #14713 = #14712 #14712
[instance] 0x0 #14713
[attach-enode] #14713 0
[end-of-instance]
[mk-app] #14713 or #14107 #14712
[mk-app] #14714 = #14713 #14121
[mk-app] #14715 not #14713
[mk-app] #14716 not #14714
[inst-discovered] theory-solving 0x0 basic# ; #14716
[mk-app] #14715 = #14716 #14716
[instance] 0x0 #14715
[attach-enode] #14715 0
[end-of-instance]
[mk-app] #14715 not #12552
[mk-app] #14717 or #14715 #14716
[instance] 75245469 ; 1
[attach-enode] #14106 1
[attach-enode] #14116 1
[attach-enode] #14117 1
[attach-enode] #14121 1
[assign] (not #14714) justification -1: 1248
[end-of-instance]
[mk-app] #14718 u_tokenizer!lex.scan.? #14035 #14394 #8402
[mk-app] #14719 I #14718
[mk-app] #14720 vstd!seq.Seq.index.? #120 #244 #14035 #14719
[mk-app] #14721 u_tokenizer!lex.within.? #8402 #14720
[mk-app] #14722 not #14721
[mk-app] #14723 * #363 #14718
[mk-app] #14724 + #14045 #14723
[mk-app] #14725 <= #14724 #334
[mk-app] #14726 or #14725 #14722
[mk-app] #14727 not #14726
[mk-app] #14728 i$!skolem_user_u_tokenizer__lex__lemma_scan_0!18 #8401 #14200 #13443
[mk-app] #14729 vstd!seq.Seq.index.? #120 #244 #14035 #14728
[mk-app] #14730 u_tokenizer!lex.within.? #8402 #14729
[mk-app] #14731 %I #14728
[mk-app] #14732 * #363 #14731
[mk-app] #14733 + #14718 #14732
[mk-app] #14734 <= #14733 #334
[mk-app] #14735 + #14200 #14732
[mk-app] #14736 <= #14735 #334
[mk-app] #14737 not #14736
[mk-app] #14738 has_type #14728 #184
[mk-app] #14739 not #14738
[mk-app] #14740 or #14739 #14737 #14734 #14730
[mk-app] #14741 not #14740
[mk-app] #14742 >= #14724 #334
[mk-app] #14743 not #14742
[mk-app] #14744 + #14200 #14723
[mk-app] #14745 <= #14744 #334
[mk-app] #14746 not #14745
[mk-app] #14747 ens%u_tokenizer!lex.lemma_scan. #13443 #14200 #8401
[mk-app] #14748 or #14747 #14746 #14743 #14741 #14727
[mk-app] #14749 not #14748
[mk-app] #14750 + #186 #14528
[mk-app] #14751 >= #14750 #334
[mk-app] #14752 not #14751
[mk-app] #14753 + #186 #14723
[mk-app] #14754 >= #14753 #334
[mk-app] #14755 or #192 #14752 #14754 #14166
[mk-quant] #14756 user_u_tokenizer__lex__lemma_scan_0 1 #14160 #14755
[attach-var-names] #14756 (|i$| ; |Poly|)
[mk-app] #14757 not #14756
[mk-app] #14758 or #14746 #14743 #14757 #14727
[mk-app] #14759 not #14758
[mk-app] #14760 not #14747
[mk-app] #14761 or #14760 #14759
[mk-app] #14762 not #14761
[mk-app] #14763 or #14762 #14749
[mk-app] #14764 not #14763
[inst-discovered] theory-solving 0x0 basic# ; #14755
[mk-app] #14765 = #14755 #14755
[instance] 0x0 #14765
[attach-enode] #14765 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14726
[mk-app] #14765 = #14726 #14726
[instance] 0x0 #14765
[attach-enode] #14765 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14758
[mk-app] #14765 = #14758 #14758
[instance] 0x0 #14765
[attach-enode] #14765 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14740
[mk-app] #14765 = #14740 #14740
[instance] 0x0 #14765
[attach-enode] #14765 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14748
[mk-app] #14765 = #14748 #14748
[instance] 0x0 #14765
[attach-enode] #14765 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14763
[mk-app] #14765 = #14763 #14763
[instance] 0x0 #14765
[attach-enode] #14765 0
[end-of-instance]
[mk-app] #14765 not #13089
[mk-app] #14766 or #14765 #14764
[instance] 1587267544 ; 1
[attach-enode] #14747 1
[attach-enode] #14718 1
[attach-enode] #14723 1
[attach-enode] #14744 1
[attach-enode] #14724 1
[attach-enode] #14719 1
[attach-enode] #14720 1
[attach-enode] #14721 1
[attach-enode] #14728 1
[attach-enode] #14738 1
[attach-enode] #14731 1
[attach-enode] #14732 1
[attach-enode] #14735 1
[attach-enode] #14733 1
[attach-enode] #14729 1
[attach-enode] #14730 1
[assign] (not #14763) justification -1: 1738
[end-of-instance]
[mk-app] #14767 u_tokenizer!text.bpos.? #3903 #14344
[mk-app] #14768 vstd!seq.Seq.subrange.? #120 #244 #3903 #5644 #14344
[mk-app] #14769 u_tokenizer!text.blen.? #14768
[mk-app] #14770 = #14767 #14769
[mk-app] #14771 not #6732
[mk-app] #14772 or #14771 #14770
[instance] 472461204 ; 2
[attach-enode] #14767 2
[attach-enode] #14768 2
[attach-enode] #14769 2
[attach-enode] #14770 2
[assign] #14770 justification -1: 1180
[end-of-instance]
[mk-app] #14773 = #13884 #13250
[mk-app] #14774 not #2763
[mk-app] #14775 or #14774 #14773
[instance] 1095615642 ; 2
[attach-enode] #13884 2
[attach-enode] #14773 2
[assign] #14773 justification -1: 668
[end-of-instance]
[mk-app] #14776 or #13927 #13942
[mk-app] #14777 not #2770
[mk-app] #14778 or #14777 #13927 #13942
[instance] 3572552747 ; 3
[attach-enode] #13926 3
[attach-enode] #13928 3
[mk-app] #14779 tuple%2./tuple%2/?0 #13928
[mk-app] #14780 tuple%2./tuple%2/?1 #13928
[mk-app] #14781 tuple%2./tuple%2 #14779 #14780
[attach-enode] #14779 3
[attach-enode] #14780 3
[attach-enode] #14781 3
[mk-app] #14782 tuple%2./tuple%2/?0 #14781
[mk-app] #14783 = #14779 #14782
[new-match] 0 datatype#220 datatype#217 #14779 #14780 ; #14781
[instance] 0 #14783
[attach-enode] #14782 3
[end-of-instance]
[mk-app] #14783 tuple%2./tuple%2/?1 #14781
[mk-app] #14784 = #14780 #14783
[new-match] 0 datatype#223 datatype#217 #14779 #14780 ; #14781
[instance] 0 #14784
[attach-enode] #14783 3
[end-of-instance]
[attach-enode] #13941 3
[attach-enode] #13942 3
[end-of-instance]
[assign] (not #14695) clause -2395 2396
[assign] (not #14708) clause -2402 2403
[assign] #14761 clause 2419 2426
[assign] #14748 clause 2425 2426
[assign] #14681 clause 2392 2395
[assign] #14686 clause 2394 2395
[assign] #14704 clause 2397 2395
[assign] #14121 justification -1: 1868 2338 1852 2329
[assign] #14747 justification -1: 1867 1863 1861 2254 1965
[assign] #13926 justification -1: 2326 2331 2328 1851
[mk-app] #14776 = #14127 #14718
[attach-meaning] #363 arith (- 1)
[mk-app] #14784 + #14127 #14723
[mk-app] #14785 <= #14784 #334
[mk-app] #14786 >= #14784 #334
[assign] #14776 justification -1: 2268
[attach-enode] #14776 0
[attach-enode] #14784 0
[assign] #14785 justification -1: 2431
[assign] #14786 justification -1: 2431
[eq-expl] #14768 root
[new-match] 3947518575 #11029 #6617 #14768 ; #14769
[new-match] 728421953 #11876 #3981 #14344 #5644 #3903 #244 #120 ; #14768
[eq-expl] #14685 cg (#120 #120) (#244 #244) (#3903 #13816) (#14344 #13823) ; #13827
[eq-expl] #13827 lit #13828 ; #3683
[new-match] 2280714649 #12713 #8310 #14685 #14321 ; #14686
[eq-expl] #14680 cg (#14344 #13823) ; #14203
[eq-expl] #14203 cg (#13823 #13880) ; #13881
[eq-expl] #13881 lit #13882 ; #3764
[eq-expl] #14689 cg (#14680 #3764) (#289 #289) ; #3594
[eq-expl] #14690 cg (#14689 #14200) ; #14394
[new-match] 2133480208 #8330 #8329 #8363 #14321 #14690 #3903 ; #14691
[mk-app] #14787 has_type #14768 #3200
[mk-app] #14788 not #14787
[mk-app] #14789 u_tokenizer!text.rec%blen.? #14768 #6613
[mk-app] #14790 = #14769 #14789
[mk-app] #14791 or #14788 #14790
[mk-app] #14792 or #13649 #14788 #14790
[instance] 3947518575 ; 3
[attach-enode] #14787 3
[attach-enode] #14789 3
[attach-enode] #14790 3
[end-of-instance]
[mk-app] #14793 has_type #14403 #184
[mk-app] #14794 not #14793
[mk-app] #14795 vstd!seq.Seq.subrange.? #120 #244 #3903 #14403 #14344
[mk-app] #14796 has_type #14795 #1463
[mk-app] #14797 or #13451 #14794 #13614 #14796
[mk-app] #14798 not #11876
[mk-app] #14799 or #14798 #13451 #14794 #13614 #14796
[instance] 728421953 ; 4
[attach-enode] #14793 4
[attach-enode] #14795 4
[attach-enode] #14796 4
[end-of-instance]
[mk-app] #14800 u_tokenizer!lex.within.? #14321 #13254
[mk-app] #14801 %Poly%u_tokenizer!lex.Class. #14321
[mk-app] #14802 is #14801
[mk-app] #14803 is #14801
[mk-app] #14804 is #14801
[mk-app] #14805 is #14801
[mk-app] #14806 if #14805 #14477 #14481
[mk-app] #14807 if #14804 #14474 #14806
[mk-app] #14808 if #14803 #14471 #14807
[mk-app] #14809 if #14802 #14470 #14808
[mk-app] #14810 = #14800 #14809
[mk-app] #14811 u_tokenizer!lex.within.? #14321 #13251
[mk-app] #14812 or #14497 #14494
[mk-app] #14813 not #14812
[mk-app] #14814 if #14805 #14495 #14813
[mk-app] #14815 if #14804 #14493 #14814
[mk-app] #14816 if #14803 #14491 #14815
[mk-app] #14817 if #14802 #14490 #14816
[mk-app] #14818 = #14811 #14817
[mk-app] #14819 not #12713
[mk-app] #14820 or #14819 #14818
[instance] 2280714649 ; 5
[attach-enode] #14811 5
[attach-enode] #14801 5
[attach-enode] #14803 5
[attach-enode] #14802 5
[attach-enode] #14488 5
[attach-enode] #7067 5
[attach-enode] #14489 5
[attach-enode] #14491 5
[attach-enode] #14804 5
[attach-enode] #7059 5
[attach-enode] #14492 5
[attach-enode] #14805 5
[attach-enode] #14494 5
[attach-enode] #14496 5
[assign] #14818 justification -1: 1413
[end-of-instance]
[mk-app] #14821 u_tokenizer!lex.rec%scan.? #3903 #14394 #14321 #8363
[mk-app] #14822 = #14821 #14663
[mk-app] #14823 or #14665 #14822
[instance] 2133480208 ; 5
[attach-enode] #14821 5
[attach-enode] #14822 5
[assign] #14822 justification -1: 1415
[end-of-instance]
[assign] (not #14713) clause -2408 -2409 2410
[assign] (not #14758) clause -2418 -2411 -2419
[assign] #13942 clause 2430 -2429
[assign] #14106 clause 2405 2408
[assign] #14118 clause 2407 2408
[assign] #14745 clause 2412 2418
[assign] #14742 clause 2413 2418
[assign] #14756 clause 2414 2418
[assign] #14726 clause 2417 2418
[assign] #14793 justification -1: 2229 2269
[assign] #14811 justification -1: 2394 2163 2329 2267 1965 1966 1962 1961
[assign] (not #14803) justification -1: -1855 1856 2251 2266
[assign] (not #14802) justification -1: -2185 1863 1856 1856 2251 2266
[mk-app] #14824 = #14036 #14127
[attach-meaning] #363 arith (- 1)
[mk-app] #14825 + #14036 #14132
[mk-app] #14826 <= #14825 #334
[mk-app] #14827 >= #14825 #334
[assign] #14824 justification -1: 2248 2293 2456 2397 2398 2390 2387 2265 2267 1961 2254 2253 2267 2266 2268 1965
[attach-enode] #14824 0
[attach-enode] #14825 0
[assign] #14826 justification -1: 2457
[assign] #14827 justification -1: 2457
[assign] #14154 clause 2178 -2412 -2191 -2433
[assign] (not #14218) clause -2179 -2412 -2175 -2191 -2177 -2433
[eq-expl] #13928 cg (#13859 #3696) ; #3697
[eq-expl] #13941 cg (#13928 #3697) ; #13821
[eq-expl] #13821 cg (#3697 #13252) ; #13884
[eq-expl] #13884 lit #14773 ; #13250
[new-match] 4245809972 #482 #206 #13941 ; #13942 (#203 #203)
[new-match] 877182954 #210 #206 #13941 ; #13942 (#203 #203)
[new-match] 2901573588 #183 #179 #3563 ; #14106 (#135 #135)
[new-match] 3605618164 #7343 #7340 #13251 #244 #120 ; #14116
[new-match] 3053543861 #9051 #9050 #13251 ; #14116 (#120 #120) (#244 #244)
[new-match] 1829841835 #14756 #14160 #13823 ; #13827 (#120 #120) (#244 #244) (#13816 #14035)
[new-match] 3445817394 #14756 #14160 #14306 ; #14307 (#120 #120) (#244 #244) (#3903 #14035)
[new-match] 348695290 #14756 #14160 #14344 ; #14685 (#120 #120) (#244 #244) (#3903 #14035)
[mk-app] #14828 uInv #270 #13971
[mk-app] #14829 or #13970 #14828
[mk-app] #14830 not #482
[mk-app] #14831 or #14830 #13970 #14828
[instance] 4245809972 ; 4
[attach-enode] #13969 4
[attach-enode] #13971 4
[attach-enode] #14828 4
[end-of-instance]
[mk-app] #14829 or #13970 #13979
[mk-app] #14832 not #210
[mk-app] #14833 or #14832 #13970 #13979
[instance] 877182954 ; 4
[attach-enode] #13978 4
[attach-enode] #13979 4
[end-of-instance]
[mk-app] #14829 not #183
[mk-app] #14834 or #14829 #14107 #14180
[instance] 2901573588 ; 2
[attach-enode] #14179 2
[attach-enode] #14180 2
[assign] #14180 justification -1: 27 2405
[end-of-instance]
[mk-app] #14835 or #13933 #14186
[mk-app] #14836 not #7343
[mk-app] #14837 or #14836 #13933 #14186
[instance] 3605618164 ; 2
[attach-enode] #14186 2
[assign] #14186 justification -1: 1240 2336
[end-of-instance]
[mk-app] #14835 = #14116 #13251
[mk-app] #14838 not #9051
[mk-app] #14839 or #14838 #14835
[instance] 3053543861 ; 2
[attach-enode] #14835 2
[assign] #14835 justification -1: 1465
[end-of-instance]
[mk-app] #14840 not #14671
[mk-app] #14841 %I #14670
[mk-app] #14842 + #14841 #14528
[mk-app] #14843 >= #14842 #334
[mk-app] #14844 not #14843
[mk-app] #14845 + #14841 #14723
[mk-app] #14846 >= #14845 #334
[mk-app] #14847 vstd!seq.Seq.index.? #120 #244 #14035 #14670
[mk-app] #14848 u_tokenizer!lex.within.? #8402 #14847
[mk-app] #14849 or #14840 #14844 #14846 #14848
[mk-app] #14850 + #14528 #14841
[inst-discovered] theory-solving 0x0 arith# ; #14842
[mk-app] #14851 = #14842 #14850
[instance] 0x0 #14851
[attach-enode] #14851 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14851 * #363 #14841
[mk-app] #14852 + #14200 #14851
[mk-app] #14853 <= #14852 #334
[mk-app] #14854 >= #14850 #334
[inst-discovered] theory-solving 0x0 arith# ; #14854
[mk-app] #14855 = #14854 #14853
[instance] 0x0 #14855
[attach-enode] #14855 0
[end-of-instance]
[mk-app] #14850 not #14853
[mk-app] #14854 + #14723 #14841
[inst-discovered] theory-solving 0x0 arith# ; #14845
[mk-app] #14855 = #14845 #14854
[instance] 0x0 #14855
[attach-enode] #14855 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14855 + #14718 #14851
[mk-app] #14856 <= #14855 #334
[mk-app] #14857 >= #14854 #334
[inst-discovered] theory-solving 0x0 arith# ; #14857
[mk-app] #14858 = #14857 #14856
[instance] 0x0 #14858
[attach-enode] #14858 0
[end-of-instance]
[mk-app] #14854 or #14840 #14850 #14856 #14848
[inst-discovered] theory-solving 0x0 basic# ; #14854
[mk-app] #14857 = #14854 #14854
[instance] 0x0 #14857
[attach-enode] #14857 0
[end-of-instance]
[mk-app] #14857 or #14757 #14840 #14850 #14856 #14848
[instance] 3445817394 ; 5
[attach-enode] #14671 5
[attach-enode] #14841 5
[attach-enode] #14851 5
[attach-enode] #14852 5
[attach-enode] #14855 5
[attach-enode] #14847 5
[attach-enode] #14848 5
[end-of-instance]
[assign] #14796 clause 2437 -2436
[assign] #14817 clause 2454 -2438 -2455
[assign] #14816 clause 2453 2440 -2454
[assign] #14815 clause 2452 -2453 2439
[assign] #14787 justification -1: 2437 717 715 2269
[assign] #13969 justification -1: 2430 2428 2331 2328 1851
[assign] #14671 justification -1: 2230 2270
[mk-app] #14854 = #14379 #14841
[attach-meaning] #363 arith (- 1)
[mk-app] #14858 + #14379 #14851
[mk-app] #14859 <= #14858 #334
[mk-app] #14860 >= #14858 #334
[assign] #14854 justification -1: 2270
[attach-enode] #14854 0
[attach-enode] #14858 0
[assign] #14859 justification -1: 2470
[assign] #14860 justification -1: 2470
[eq-expl] #3556 root
[new-match] 2296941121 #164 #163 #3556 ; #14179
[new-match] 956082653 #11105 #11104 #14768 ; #14787 (#3200 #3204)
[eq-expl] #3563 lit #14180 ; #14179
[eq-expl] #14179 root
[new-match] 3667285938 #138 #137 #3556 ; #14106 (#135 #135) (#3563 #14179)
[mk-app] #14861 not #164
[mk-app] #14862 or #14861 #14224
[instance] 2296941121 ; 3
[attach-enode] #14223 3
[assign] #14224 justification -1: 24
[end-of-instance]
[mk-app] #14863 has_type #14768 #3204
[mk-app] #14864 not #14863
[mk-app] #14865 %Poly%vstd!seq.Seq<char.>. #14768
[mk-app] #14866 Poly%vstd!seq.Seq<char.>. #14865
[mk-app] #14867 = #14768 #14866
[mk-app] #14868 or #14864 #14867
[mk-app] #14869 or #13752 #14864 #14867
[instance] 956082653 ; 4
[attach-enode] #14863 4
[attach-enode] #14865 4
[attach-enode] #14866 4
[attach-enode] #14867 4
[end-of-instance]
[assign] #14790 clause 2435 -2434
[assign] #14828 clause 2461 -2460
[assign] #13979 clause 2462 -2460
[assign] #14863 justification -1: 2434 717
[eq-expl] #13971 cg (#13250 #13821) ; #13822
[eq-expl] #13822 lit #13825 ; #13824
[eq-expl] #13824 root
[new-match] 2039972352 #11540 #442 #13971 #270 ; #14828
[new-match] 1520299109 #6591 #6590 #6613 #14768 ; #14789
[new-match] 3343054564 #11027 #6605 #6612 #14768 ; #14789 (#6613 #6613)
[new-match] 669353760 #169 #168 #13971 ; #13978
[eq-expl] #13978 lit #13979 ; #13250
[new-match] 3954363791 #10995 #470 #13971 ; #13942 (#203 #203) (#13941 #13978)
[mk-app] #14870 or #13999 #14009
[mk-app] #14871 = #14870 #14003
[mk-app] #14872 not #14870
[mk-app] #14873 not #14871
[inst-discovered] theory-solving 0x0 basic# ; #14873
[mk-app] #14872 = #14873 #14873
[instance] 0x0 #14872
[attach-enode] #14872 0
[end-of-instance]
[mk-app] #14872 or #13345 #14873
[instance] 2039972352 ; 5
[attach-enode] #14007 5
[attach-enode] #14008 5
[attach-enode] #14003 5
[assign] (not #14871) justification -1: 58
[end-of-instance]
[mk-app] #14874 u_tokenizer!text.rec%blen.? #14768 #6587
[mk-app] #14875 = #14789 #14874
[mk-app] #14876 or #14371 #14875
[instance] 1520299109 ; 4
[attach-enode] #14874 4
[attach-enode] #14875 4
[assign] #14875 justification -1: 1159
[end-of-instance]
[mk-app] #14877 vstd!seq.Seq.len.? #120 #244 #14768
[mk-app] #14878 = #14877 #334
[mk-app] #14879 vstd!seq_lib.impl&%0.drop_last.? #120 #244 #14768
[mk-app] #14880 u_tokenizer!text.rec%blen.? #14879 #6612
[mk-app] #14881 vstd!seq.Seq.last.? #120 #244 #14768
[mk-app] #14882 u_tokenizer!text.clen.? #14881
[mk-app] #14883 Add #14880 #14882
[mk-app] #14884 if #14878 #334 #14883
[mk-app] #14885 = #14789 #14884
[mk-app] #14886 or #14788 #14885
[mk-app] #14887 or #14374 #14788 #14885
[instance] 3343054564 ; 4
[mk-app] #14888 = #14884 #334
[mk-app] #14889 = #14883 #14884
[attach-enode] #14884 4
[attach-enode] #14877 4
[attach-enode] #14878 4
[attach-enode] #14879 4
[attach-enode] #14880 4
[attach-enode] #14881 4
[attach-enode] #14882 4
[attach-enode] #14883 4
[attach-enode] #14888 4
[attach-enode] #14889 4
[attach-enode] #14885 4
[assign] #14885 justification -1: 1160 2434
[end-of-instance]
[assign] #14867 clause 2476 -2475
[assign] #14003 justification -1: 2461 2162 2428
[new-match] 2718630501 #6591 #6590 #6587 #14768 ; #14874
[new-match] 1772708795 #3884 #3879 #14768 #244 #120 ; #14877
[new-match] 1771839088 #11940 #4193 #14344 #5644 #3903 #244 #120 ; #14877 (#14768 #14768) (#120 #120) (#120 #120) (#244 #244) (#244 #244)
[eq-expl] #14865 root
[new-match] 4248902211 #1462 #1461 #14865 ; #14866
[eq-expl] #14866 lit #14867 ; #14768
[new-match] 3016177539 #1513 #1512 #14865 ; #14787 (#3200 #3204) (#14768 #14866)
[mk-app] #14890 has_type #14768 #1463
[mk-app] #14891 not #14890
[mk-app] #14892 >= #14877 #334
[mk-app] #14893 or #14891 #14892
[mk-app] #14894 or #13454 #14891 #14892
[instance] 1772708795 ; 5
[attach-enode] #14890 5
[end-of-instance]
[mk-app] #14895 %I #14403
[mk-app] #14896 >= #14895 #334
[mk-app] #14897 not #14896
[mk-app] #14898 * #363 #14895
[mk-app] #14899 + #14680 #14898
[mk-app] #14900 >= #14899 #334
[mk-app] #14901 not #14900
[mk-app] #14902 <= #14683 #334
[mk-app] #14903 not #14902
[mk-app] #14904 vstd!seq.Seq.len.? #120 #244 #14795
[mk-app] #14905 Sub #14680 #14895
[mk-app] #14906 = #14904 #14905
[mk-app] #14907 or #13451 #14794 #13614 #13510 #14897 #14901 #14903 #14906
[mk-app] #14908 + #13456 #14680
[inst-discovered] theory-solving 0x0 arith# ; #14683
[mk-app] #14909 = #14683 #14908
[instance] 0x0 #14909
[attach-enode] #14909 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14909 >= #14697 #334
[mk-app] #14910 <= #14908 #334
[inst-discovered] theory-solving 0x0 arith# ; #14910
[mk-app] #14911 = #14910 #14909
[instance] 0x0 #14911
[attach-enode] #14911 0
[end-of-instance]
[mk-app] #14910 not #14909
[mk-app] #14911 or #13451 #14794 #13614 #13510 #14897 #14901 #14910 #14906
[inst-discovered] theory-solving 0x0 basic# ; #14911
[mk-app] #14912 = #14911 #14911
[instance] 0x0 #14912
[attach-enode] #14912 0
[end-of-instance]
[mk-app] #14912 not #11940
[mk-app] #14913 or #14912 #13451 #14794 #13614 #13510 #14897 #14901 #14910 #14906
[instance] 1771839088 ; 5
[attach-enode] #14895 5
[attach-enode] #14898 5
[attach-enode] #14899 5
[assign] #14909 justification -1: -2393
[attach-enode] #14904 5
[attach-enode] #14905 5
[attach-enode] #14906 5
[end-of-instance]
[assign] (not #14870) clause -2479 -2480 2481
[assign] #13998 clause 2477 2479
[assign] (not #14009) clause -2478 2479
[assign] #14890 justification -1: 2434 717 715
[mk-app] #14911 = #13916 #14895
[attach-meaning] #363 arith (- 1)
[mk-app] #14914 + #13916 #14898
[mk-app] #14915 <= #14914 #334
[mk-app] #14916 >= #14914 #334
[assign] #14911 justification -1: 2269
[attach-enode] #14911 0
[attach-enode] #14914 0
[assign] #14915 justification -1: 2493
[assign] #14916 justification -1: 2493
[assign] #14892 clause 2488 -2487
[assign] #14896 clause 2489 -2494 -2257
[push] 10
[assign] (not #13228) decision axiom
[assign] (not #739) justification -1: -1813
[assign] (not #13264) justification -1: -1813 1953
[assign] (not #13268) justification -1: -1813 1953
[assign] (not #13397) justification -1: -1813 1953
[assign] (not #13401) justification -1: -1813 1953
[push] 11
[assign] (not #432) decision axiom
[assign] (not #155) justification -1: -1816
[assign] (not #13277) justification -1: -1816 1956
[assign] (not #13281) justification -1: -1816 1956
[assign] (not #13408) justification -1: -1816 1956
[assign] (not #13412) justification -1: -1816 1956
[push] 12
[assign] (not #13221) decision axiom
[assign] (not #13239) justification -1: -1819
[assign] (not #13290) justification -1: -1819 1959
[assign] (not #13294) justification -1: -1819 1959
[assign] (not #13419) justification -1: -1819 1959
[assign] (not #13423) justification -1: -1819 1959
[decide-and-or] #13227 #3277
[push] 13
[assign] #3277 decision axiom
[assign] #3450 clause 1879 -1889 -1890
[assign] #1047 clause 1880 -1879
[assign] #726 clause 1882 -1880
[assign] (not #719) clause -1887 -1882 -1888
[assign] #1782 clause 1883 1887
[assign] #3377 clause 1884 1887
[push] 14
[assign] (not #3557) decision axiom
[assign] (not #3556) clause -1869 1870 -1883
[assign] (not #14117) clause -2406 1869 -2407
[assign] (not #14223) clause -2473 1869 -2474
[assign] (not #13786) justification -1: -1870 1852
[assign] (not #14494) justification -1: -1870 2329 1852
[assign] (not #14496) justification -1: -2406 2465
[assign] #14812 clause 2450 2449
[decide-and-or] #13388 #13381
[push] 15
[assign] (not #13380) decision axiom
[assign] #13376 clause 1943 1945
[assign] #13378 clause 1944 1945
[assign] (not #13382) clause -1946 -1944
[assign] #13384 clause 1947 -1944
[assign] #13386 clause 1948 1946
[push] 16
[assign] (not #14420) decision axiom
[assign] #14422 clause 2203 2200
[assign] #13858 clause 2208 2200 -2209
[assign] (not #14428) clause -2204 -2203 -2205
[assign] #14424 clause 2201 2204
[assign] #14426 clause 2202 2204
[assign] #13872 clause 2364 2200 -2209 -2383
[assign] #14055 clause 2365 2200 -2209 -2383
[assign] #14081 clause 2371 -2364
[assign] #14073 clause 2369 -2365
[push] 17
[assign] (not #13856) decision axiom
[push] 18
[assign] (not #14571) decision axiom
[assign] #14632 clause 2296 2299
[assign] (not #13785) clause -2297 2299
[assign] #14440 clause 2298 2299
[assign] #14568 clause 2301 2299
[assign] (not #14504) clause -2206 2297 -2321
[assign] #14391 clause 2207 2297 -2272 -2290 -2191 -2321
[assign] #14853 clause 2467 2297 -2290 -2321 -2272 -2471
[eq-expl] #14460 root
[new-match] 32987901 #12713 #8310 #14460 #14321 ; #14440
[eq-expl] #14588 root
[new-match] 3565802016 #8330 #8329 #8363 #14321 #14588 #3903 ; #14603
[new-match] 2894292669 #14756 #14160 #14394 ; #14460 (#120 #120) (#244 #244) (#3903 #14035)
[new-match] 884881102 #11858 #3908 #14394 #3903 #244 #120 ; #14460
[eq-expl] #14578 root
[new-match] 2126151745 #169 #168 #14578 ; #14588
[eq-expl] #14653 cg (#14394 #14126) ; #14200
[new-match] 2800690745 #550 #548 #289 #14653 ; #14578
[mk-app] #14917 u_tokenizer!lex.is_alnum.? #14460
[mk-app] #14918 %I #14460
[mk-app] #14919 = #14918 #7067
[mk-app] #14920 or #14917 #14919
[mk-app] #14921 u_tokenizer!lex.is_digit.? #14460
[mk-app] #14922 = #14918 #7059
[mk-app] #14923 not #14922
[mk-app] #14924 = #14918 #6750
[mk-app] #14925 not #14924
[mk-app] #14926 u_tokenizer!text.is_blank.? #14460
[mk-app] #14927 not #14926
[mk-app] #14928 or #14927 #14924
[mk-app] #14929 not #14928
[mk-app] #14930 if #14805 #14925 #14929
[mk-app] #14931 if #14804 #14923 #14930
[mk-app] #14932 if #14803 #14921 #14931
[mk-app] #14933 if #14802 #14920 #14932
[mk-app] #14934 = #14440 #14933
[mk-app] #14935 or #14819 #14934
[instance] 32987901 ; 4
[attach-enode] #14917 4
[attach-enode] #14918 4
[attach-enode] #14919 4
[attach-enode] #14921 4
[attach-enode] #14922 4
[attach-enode] #14924 4
[attach-enode] #14926 4
[assign] #14934 justification -1: 1413
[end-of-instance]
[mk-app] #14936 u_tokenizer!lex.rec%scan.? #3903 #14588 #14321 #6587
[mk-app] #14937 = #14603 #14936
[mk-app] #14938 or #14665 #14937
[instance] 3565802016 ; 4
[attach-enode] #14936 4
[attach-enode] #14937 4
[assign] #14937 justification -1: 1415
[end-of-instance]
[mk-app] #14939 has_type #14460 #244
[mk-app] #14940 or #13451 #14669 #14939
[mk-app] #14941 not #11858
[mk-app] #14942 or #14941 #13451 #14669 #14939
[instance] 884881102 ; 4
[attach-enode] #14939 4
[assign] #14939 justification -1: 816 1967 2294
[end-of-instance]
[mk-app] #14943 %I #14588
[mk-app] #14944 = #14578 #14943
[mk-app] #14945 or #14221 #14944
[instance] 2126151745 ; 4
[attach-enode] #14943 4
[attach-enode] #14944 4
[assign] #14944 justification -1: 25
[end-of-instance]
[mk-app] #14946 * #363 #14521
[mk-app] #14947 + #289 #14200 #14946
[mk-app] #14948 = #14947 #334
[attach-meaning] #363 arith (- 1)
[mk-app] #14949 + #14200 #14946
[mk-app] #14950 = #14949 #363
[inst-discovered] theory-solving 0x0 arith# ; #14948
[mk-app] #14951 = #14948 #14950
[instance] 0x0 #14951
[attach-enode] #14951 0
[end-of-instance]
[mk-app] #14951 or #13974 #14950
[instance] 2800690745 ; 4
[attach-enode] #14521 4
[attach-enode] #14946 4
[attach-enode] #14949 4
[attach-enode] #14950 4
[mk-app] #14952 <= #14949 #363
[mk-app] #14953 >= #14949 #363
[assign] #14950 justification -1: 76
[end-of-instance]
[assign] #14933 clause 2507 -2508
[assign] #14952 clause 2513 -2512
[assign] #14953 clause 2514 -2512
[assign] #14932 clause 2506 -2507
[assign] #14931 clause 2505 -2506
[new-match] 1190380143 #8330 #8329 #6587 #14321 #14588 #3903 ; #14936
[new-match] 4262242206 #525 #247 #14460 ; #14939 (#244 #244)
[new-match] 3418653225 #251 #247 #14460 ; #14939 (#244 #244)
[mk-app] #14954 not #14939
[mk-app] #14955 charInv #14918
[mk-app] #14956 or #14954 #14955
[inst-discovered] theory-solving 0x0 basic# ; #14956
[mk-app] #14957 = #14956 #14956
[instance] 0x0 #14957
[attach-enode] #14957 0
[end-of-instance]
[mk-app] #14957 or #14408 #14954 #14955
[instance] 4262242206 ; 5
[attach-enode] #14955 5
[assign] #14955 justification -1: 71 2510
[end-of-instance]
[mk-app] #14958 I #14918
[mk-app] #14959 = #14460 #14958
[mk-app] #14960 or #14954 #14959
[mk-app] #14961 or #14396 #14954 #14959
[instance] 3418653225 ; 5
[attach-enode] #14958 5
[attach-enode] #14959 5
[assign] #14959 justification -1: 35 2510
[end-of-instance]
[eq-expl] #14918 root
[new-match] 2119951255 #11183 #454 #14918 ; #14955
[new-match] 4208461331 #169 #168 #14918 ; #14958
[eq-expl] #14460 lit #14959 ; #14958
[eq-expl] #14958 root
[new-match] 2968846760 #509 #505 #14918 ; #14939 (#244 #244) (#14460 #14958)
[mk-app] #14962 >= #14918 #334
[mk-app] #14963 not #14962
[mk-app] #14964 <= #14918 #390
[mk-app] #14965 not #14964
[mk-app] #14966 or #14963 #14965
[mk-app] #14967 not #14966
[mk-app] #14968 >= #14918 #410
[mk-app] #14969 not #14968
[mk-app] #14970 <= #14918 #412
[mk-app] #14971 not #14970
[mk-app] #14972 or #14969 #14971
[mk-app] #14973 not #14972
[mk-app] #14974 or #14967 #14973
[mk-app] #14975 = #14955 #14974
[inst-discovered] theory-solving 0x0 basic# ; #14966
[mk-app] #14976 = #14966 #14966
[instance] 0x0 #14976
[attach-enode] #14976 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14972
[mk-app] #14976 = #14972 #14972
[instance] 0x0 #14976
[attach-enode] #14976 0
[end-of-instance]
[mk-app] #14976 or #4386 #14975
[instance] 2119951255 ; 6
[assign] #14975 justification -1: 60
[end-of-instance]
[assign] #14974 clause 2523 -2524
[push] 19
[assign] (not #14435) decision axiom
[assign] (not #14418) clause -2306 2308
[assign] #14527 clause 2307 2308
[assign] #14407 clause 2310 2308
[eq-expl] #13945 root
[new-match] 3158738316 #12713 #8310 #13945 #14321 ; #14527
[eq-expl] #14499 root
[new-match] 1011209418 #8330 #8329 #8363 #14321 #14499 #3903 ; #14461
[new-match] 2418423515 #14756 #14160 #14295 ; #13945 (#120 #120) (#244 #244) (#3903 #14035)
[new-match] 3590478860 #11858 #3908 #14295 #3903 #244 #120 ; #13945
[eq-expl] #14498 root
[new-match] 4165736656 #169 #168 #14498 ; #14499
[eq-expl] #14576 cg (#14295 #3839) ; #13805
[new-match] 3326059031 #550 #548 #289 #14576 ; #14498
[mk-app] #14977 u_tokenizer!lex.is_alnum.? #13945
[mk-app] #14978 %I #13945
[mk-app] #14979 = #14978 #7067
[mk-app] #14980 or #14977 #14979
[mk-app] #14981 u_tokenizer!lex.is_digit.? #13945
[mk-app] #14982 = #14978 #7059
[mk-app] #14983 not #14982
[mk-app] #14984 = #14978 #6750
[mk-app] #14985 not #14984
[mk-app] #14986 u_tokenizer!text.is_blank.? #13945
[mk-app] #14987 not #14986
[mk-app] #14988 or #14987 #14984
[mk-app] #14989 not #14988
[mk-app] #14990 if #14805 #14985 #14989
[mk-app] #14991 if #14804 #14983 #14990
[mk-app] #14992 if #14803 #14981 #14991
[mk-app] #14993 if #14802 #14980 #14992
[mk-app] #14994 = #14527 #14993
[mk-app] #14995 or #14819 #14994
[instance] 3158738316 ; 4
[attach-enode] #14977 4
[attach-enode] #14978 4
[attach-enode] #14979 4
[attach-enode] #14981 4
[attach-enode] #14982 4
[attach-enode] #14984 4
[attach-enode] #14986 4
[assign] #14994 justification -1: 1413
[end-of-instance]
[mk-app] #14996 u_tokenizer!lex.rec%scan.? #3903 #14499 #14321 #6587
[mk-app] #14997 = #14461 #14996
[mk-app] #14998 or #14665 #14997
[instance] 1011209418 ; 4
[attach-enode] #14996 4
[attach-enode] #14997 4
[assign] #14997 justification -1: 1415
[end-of-instance]
[mk-app] #14999 has_type #13945 #244
[mk-app] #15000 or #13451 #14661 #14999
[mk-app] #15001 or #14941 #13451 #14661 #14999
[instance] 3590478860 ; 4
[attach-enode] #14999 4
[assign] #14999 justification -1: 816 1967 2304
[end-of-instance]
[mk-app] #15002 %I #14499
[mk-app] #15003 = #14498 #15002
[mk-app] #15004 or #14221 #15003
[instance] 4165736656 ; 4
[attach-enode] #15002 4
[attach-enode] #15003 4
[assign] #15003 justification -1: 25
[end-of-instance]
[mk-app] #15005 * #363 #14274
[mk-app] #15006 + #289 #13805 #15005
[mk-app] #15007 = #15006 #334
[attach-meaning] #363 arith (- 1)
[mk-app] #15008 + #13805 #15005
[mk-app] #15009 = #15008 #363
[inst-discovered] theory-solving 0x0 arith# ; #15007
[mk-app] #15010 = #15007 #15009
[instance] 0x0 #15010
[attach-enode] #15010 0
[end-of-instance]
[mk-app] #15010 or #13974 #15009
[instance] 3326059031 ; 4
[attach-enode] #14274 4
[attach-enode] #15005 4
[attach-enode] #15008 4
[attach-enode] #15009 4
[mk-app] #15011 <= #15008 #363
[mk-app] #15012 >= #15008 #363
[assign] #15009 justification -1: 76
[end-of-instance]
[assign] #14993 clause 2536 -2537
[assign] #15011 clause 2542 -2541
[assign] #15012 clause 2543 -2541
[assign] #14992 clause 2535 -2536
[assign] #14991 clause 2534 -2535
[new-match] 540726558 #8330 #8329 #6587 #14321 #14499 #3903 ; #14996
[new-match] 1347312039 #525 #247 #13945 ; #14999 (#244 #244)
[new-match] 3099759292 #251 #247 #13945 ; #14999 (#244 #244)
[mk-app] #15013 not #14999
[mk-app] #15014 charInv #14978
[mk-app] #15015 or #15013 #15014
[inst-discovered] theory-solving 0x0 basic# ; #15015
[mk-app] #15016 = #15015 #15015
[instance] 0x0 #15016
[attach-enode] #15016 0
[end-of-instance]
[mk-app] #15016 or #14408 #15013 #15014
[instance] 1347312039 ; 5
[attach-enode] #15014 5
[assign] #15014 justification -1: 71 2539
[end-of-instance]
[mk-app] #15017 I #14978
[mk-app] #15018 = #13945 #15017
[mk-app] #15019 or #15013 #15018
[mk-app] #15020 or #14396 #15013 #15018
[instance] 3099759292 ; 5
[attach-enode] #15017 5
[attach-enode] #15018 5
[assign] #15018 justification -1: 35 2539
[end-of-instance]
[eq-expl] #14978 root
[new-match] 681183850 #11183 #454 #14978 ; #15014
[new-match] 3117334482 #169 #168 #14978 ; #15017
[eq-expl] #13945 lit #15018 ; #15017
[eq-expl] #15017 root
[new-match] 2649803162 #509 #505 #14978 ; #14999 (#244 #244) (#13945 #15017)
[mk-app] #15021 >= #14978 #334
[mk-app] #15022 not #15021
[mk-app] #15023 <= #14978 #390
[mk-app] #15024 not #15023
[mk-app] #15025 or #15022 #15024
[mk-app] #15026 not #15025
[mk-app] #15027 >= #14978 #410
[mk-app] #15028 not #15027
[mk-app] #15029 <= #14978 #412
[mk-app] #15030 not #15029
[mk-app] #15031 or #15028 #15030
[mk-app] #15032 not #15031
[mk-app] #15033 or #15026 #15032
[mk-app] #15034 = #15014 #15033
[inst-discovered] theory-solving 0x0 basic# ; #15025
[mk-app] #15035 = #15025 #15025
[instance] 0x0 #15035
[attach-enode] #15035 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #15031
[mk-app] #15035 = #15031 #15031
[instance] 0x0 #15035
[attach-enode] #15035 0
[end-of-instance]
[mk-app] #15035 or #4386 #15034
[instance] 681183850 ; 6
[assign] #15034 justification -1: 60
[end-of-instance]
[assign] #15033 clause 2552 -2553
[decide-and-or] #13995 #13988
[push] 20
[assign] (not #13987) decision axiom
[assign] #13983 clause 2340 2342
[assign] #13985 clause 2341 2342
[assign] (not #13989) clause -2343 -2341
[assign] #13991 clause 2344 -2341
[assign] #13993 clause 2345 2343
[push] 21
[assign] (not #13789) decision axiom
[assign] #13809 clause 2236 2235
[push] 22
[assign] #13799 decision axiom
[assign] #14804 justification -1: 2377 1863 2251 2266
[mk-app] #15036 = #3587 #8773
[mk-app] #15037 => #13799 #15036
[inst-discovered] theory-solving 0x0 datatype# ; #3587
[instance] 0 #15037
[end-of-instance]
[attach-enode] #8773 0
[mk-app] #15036 = #14801 #8773
[mk-app] #15037 => #14804 #15036
[inst-discovered] theory-solving 0x0 datatype# ; #14801
[instance] 0 #15037
[end-of-instance]
[resolve-process] true
[resolve-lit] 14 (not #3578)
[resolve-lit] 0 (not #13799)
[conflict] (not #13799) (not #3578)
[pop] 14 23
[attach-enode] #14709 0
[assign] #14711 clause 2403 -2168 -2177 -2401 -1845
[attach-enode] #14718 0
[attach-enode] #14723 0
[attach-enode] #14744 0
[attach-enode] #14784 0
[attach-enode] #14895 0
[attach-enode] #14898 0
[attach-enode] #14914 0
[attach-enode] #14841 0
[attach-enode] #14851 0
[attach-enode] #14852 0
[attach-enode] #14858 0
[assign] (not #13799) clause -2377 -1863
[mk-app] #14708 = #14127 #14718
[attach-meaning] #363 arith (- 1)
[mk-app] #14712 <= #14784 #334
[assign] #14708 justification -1: 2268
[attach-enode] #14708 0
[assign] #14712 justification -1: 2410
[assign] #14786 justification -1: 2410
[mk-app] #14713 = #13916 #14895
[attach-meaning] #363 arith (- 1)
[mk-app] #14714 >= #14914 #334
[assign] #14713 justification -1: 2269
[attach-enode] #14713 0
[assign] #14915 justification -1: 2412
[assign] #14714 justification -1: 2412
[mk-app] #14773 = #14379 #14841
[attach-meaning] #363 arith (- 1)
[mk-app] #14779 >= #14858 #334
[assign] #14773 justification -1: 2270
[attach-enode] #14773 0
[assign] #14859 justification -1: 2414
[assign] #14779 justification -1: 2414
[assign] #14896 clause 2406 -2407 -2257
[push] 9
[assign] (not #3364) decision axiom
[assign] (not #13257) clause -1886 1885
[assign] (not #14464) clause -2188 1886 -2177 -2168
[assign] (not #13820) clause -2159 1886 -2160 -2161
[assign] #14087 clause 2173 1886 -2170 -2172
[assign] (not #14283) clause -2183 1886 -2184 -2158
[assign] (not #14456) clause -2187 1886 -2177
[assign] (not #14710) clause -2402 1886 -2177 -2401 -2168
[assign] (not #14698) clause -2393 1886 -2177 -1846 -2401
[assign] (not #13830) clause -2164 2159 -2165
[assign] #3481 clause 1865 -2173 -2174 -1861 -1863
[assign] #13825 clause 2162 2164
[assign] #13828 clause 2163 2164
[assign] #1117 clause 1866 -1865
[assign] (not #636) clause -1891 -1866 -1892
[assign] #3570 clause 1867 1891
[assign] #3564 clause 1868 1891
[assign] #696 clause 1888 1891
[assign] #710 clause 1890 1891
[assign] (not #14703) justification -1: -1885 1839 1838 2398 2390 2387 2265 2266 2267 1961 1965 2253 2267
[mk-app] #14780 = #14036 #14680
[attach-meaning] #363 arith (- 1)
[attach-enode] #14780 0
[assign] (not #14780) justification -1: -2402
[eq-expl] #3563 root
[new-match] 75245469 #12552 #7388 #3563 #3571 #244 #120 ; #3564
[new-match] 1587267544 #13089 #10618 #3587 #3593 #3902 ; #3570
[new-match] 1755287860 #11858 #3908 #13823 #13816 #244 #120 ; #13827
[new-match] 472461204 #6732 #6731 #13823 #13816 ; #13824
[new-match] 1095615642 #2763 #2762 #3697 ; #13821
[new-match] 3572552747 #2770 #2767 #3696 #244 #120 #203 #120 ; #13821 (#3697 #3697) #14027 (#3696 #13861) (#3696 #13861) (#7229 #7229)
[mk-app] #14781 not #14118
[inst-discovered] theory-solving 0x0 basic# ; #14781
[mk-app] #14782 = #14781 #14781
[instance] 0x0 #14782
[attach-enode] #14782 0
[end-of-instance]
[mk-app] #14782 or #14107 #14781
[mk-app] #14783 = #14782 #14121
[mk-app] #14776 not #14782
[mk-app] #14785 not #14783
[inst-discovered] theory-solving 0x0 basic# ; #14785
[mk-app] #14776 = #14785 #14785
[instance] 0x0 #14776
[attach-enode] #14776 0
[end-of-instance]
[mk-app] #14776 not #12552
[mk-app] #14814 or #14776 #14785
[instance] 75245469 ; 1
[attach-enode] #14106 1
[attach-enode] #14116 1
[attach-enode] #14117 1
[attach-enode] #14121 1
[assign] (not #14783) justification -1: 1248
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14755
[mk-app] #14815 = #14755 #14755
[instance] 0x0 #14815
[attach-enode] #14815 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14758
[mk-app] #14815 = #14758 #14758
[instance] 0x0 #14815
[attach-enode] #14815 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14740
[mk-app] #14815 = #14740 #14740
[instance] 0x0 #14815
[attach-enode] #14815 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14748
[mk-app] #14815 = #14748 #14748
[instance] 0x0 #14815
[attach-enode] #14815 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14763
[mk-app] #14815 = #14763 #14763
[instance] 0x0 #14815
[attach-enode] #14815 0
[end-of-instance]
[mk-app] #14815 not #13089
[mk-app] #14816 or #14815 #14764
[instance] 1587267544 ; 1
[attach-enode] #14747 1
[attach-enode] #14724 1
[attach-enode] #14719 1
[attach-enode] #14720 1
[attach-enode] #14721 1
[attach-enode] #14728 1
[attach-enode] #14738 1
[attach-enode] #14731 1
[attach-enode] #14732 1
[attach-enode] #14735 1
[attach-enode] #14733 1
[attach-enode] #14729 1
[attach-enode] #14730 1
[assign] (not #14763) justification -1: 1738
[end-of-instance]
[mk-app] #14817 not #6732
[mk-app] #14818 or #14817 #14770
[instance] 472461204 ; 2
[attach-enode] #14767 2
[attach-enode] #14768 2
[attach-enode] #14769 2
[attach-enode] #14770 2
[assign] #14770 justification -1: 1180
[end-of-instance]
[mk-app] #14824 = #13884 #13250
[mk-app] #14825 not #2763
[mk-app] #14826 or #14825 #14824
[instance] 1095615642 ; 2
[attach-enode] #13884 2
[attach-enode] #14824 2
[assign] #14824 justification -1: 668
[end-of-instance]
[mk-app] #14827 or #13927 #13942
[mk-app] #14828 not #2770
[mk-app] #14835 or #14828 #13927 #13942
[instance] 3572552747 ; 3
[attach-enode] #13926 3
[attach-enode] #13928 3
[mk-app] #14855 tuple%2./tuple%2/?0 #13928
[mk-app] #14856 tuple%2./tuple%2/?1 #13928
[mk-app] #14854 tuple%2./tuple%2 #14855 #14856
[attach-enode] #14855 3
[attach-enode] #14856 3
[attach-enode] #14854 3
[mk-app] #14860 tuple%2./tuple%2/?0 #14854
[mk-app] #14870 = #14855 #14860
[new-match] 0 datatype#220 datatype#217 #14855 #14856 ; #14854
[instance] 0 #14870
[attach-enode] #14860 3
[end-of-instance]
[mk-app] #14870 tuple%2./tuple%2/?1 #14854
[mk-app] #14871 = #14856 #14870
[new-match] 0 datatype#223 datatype#217 #14855 #14856 ; #14854
[instance] 0 #14871
[attach-enode] #14870 3
[end-of-instance]
[attach-enode] #13941 3
[attach-enode] #13942 3
[end-of-instance]
[assign] (not #14695) clause -2395 2396
[assign] #14761 clause 2430 2437
[assign] #14748 clause 2436 2437
[assign] #14681 clause 2392 2395
[assign] #14686 clause 2394 2395
[assign] #14704 clause 2397 2395
[assign] #14121 justification -1: 1868 2338 1852 2329
[assign] #14747 justification -1: 1867 1863 1861 2254 1965
[assign] #13926 justification -1: 2326 2331 2328 1851
[eq-expl] #14768 root
[new-match] 3947518575 #11029 #6617 #14768 ; #14769
[new-match] 728421953 #11876 #3981 #14344 #5644 #3903 #244 #120 ; #14768
[eq-expl] #13827 lit #13828 ; #3683
[new-match] 2280714649 #12713 #8310 #14685 #14321 ; #14686
[new-match] 2133480208 #8330 #8329 #8363 #14321 #14690 #3903 ; #14691
[mk-app] #14827 or #13649 #14788 #14790
[instance] 3947518575 ; 3
[attach-enode] #14787 3
[attach-enode] #14789 3
[attach-enode] #14790 3
[end-of-instance]
[mk-app] #14871 not #11876
[mk-app] #14888 or #14871 #13451 #14794 #13614 #14796
[instance] 728421953 ; 4
[attach-enode] #14793 4
[attach-enode] #14795 4
[attach-enode] #14796 4
[end-of-instance]
[mk-app] #14889 if #14805 #14495 #14813
[mk-app] #14911 if #14804 #14493 #14889
[mk-app] #14916 if #14803 #14491 #14911
[mk-app] #14949 if #14802 #14490 #14916
[mk-app] #14950 = #14811 #14949
[mk-app] #14952 not #12713
[mk-app] #14953 or #14952 #14950
[instance] 2280714649 ; 5
[attach-enode] #14811 5
[attach-enode] #14801 5
[attach-enode] #14803 5
[attach-enode] #14802 5
[attach-enode] #14488 5
[attach-enode] #7067 5
[attach-enode] #14489 5
[attach-enode] #14491 5
[attach-enode] #14804 5
[attach-enode] #7059 5
[attach-enode] #14492 5
[attach-enode] #14805 5
[attach-enode] #14494 5
[attach-enode] #14496 5
[assign] #14950 justification -1: 1413
[end-of-instance]
[mk-app] #15008 or #14665 #14822
[instance] 2133480208 ; 5
[attach-enode] #14821 5
[attach-enode] #14822 5
[assign] #14822 justification -1: 1415
[end-of-instance]
[assign] (not #14782) clause -2420 -2421 2422
[assign] (not #14758) clause -2429 -2423 -2430
[assign] #13942 clause 2441 -2440
[assign] #14106 clause 2417 2420
[assign] #14118 clause 2419 2420
[assign] #14745 clause 2404 2429
[assign] #14742 clause 2424 2429
[assign] #14756 clause 2425 2429
[assign] #14726 clause 2428 2429
[assign] (not #14218) clause -2179 -2404 -2405 -2191 -2177 -2175
[assign] #14154 clause 2178 -2404 -2405 -2191
[assign] #14793 justification -1: 2229 2269
[assign] #14811 justification -1: 2394 2163 2329 2267 1965 1966 1962 1961
[assign] (not #14803) justification -1: -1855 1856 2251 2266
[assign] (not #14802) justification -1: -2185 1863 1856 1856 2251 2266
[assign] (not #14804) justification -1: -2377 1863 2251 2266
[mk-app] #15009 = #14036 #14127
[attach-meaning] #363 arith (- 1)
[mk-app] #15011 + #14036 #14132
[mk-app] #15012 <= #15011 #334
[mk-app] #15035 >= #15011 #334
[assign] #15009 justification -1: 2248 2293 2464 2397 2398 2390 2387 2265 2267 1961 2254 2253 2267 2266 2268 1965
[attach-enode] #15009 0
[attach-enode] #15011 0
[assign] #15012 justification -1: 2465
[assign] #15035 justification -1: 2465
[eq-expl] #13928 cg (#13859 #3696) ; #3697
[eq-expl] #13941 cg (#13928 #3697) ; #13821
[eq-expl] #13821 cg (#3697 #13252) ; #13884
[eq-expl] #13884 lit #14824 ; #13250
[new-match] 4245809972 #482 #206 #13941 ; #13942 (#203 #203)
[new-match] 877182954 #210 #206 #13941 ; #13942 (#203 #203)
[new-match] 2901573588 #183 #179 #3563 ; #14106 (#135 #135)
[new-match] 3605618164 #7343 #7340 #13251 #244 #120 ; #14116
[new-match] 3053543861 #9051 #9050 #13251 ; #14116 (#120 #120) (#244 #244)
[new-match] 1829841835 #14756 #14160 #13823 ; #13827 (#120 #120) (#244 #244) (#13816 #14035)
[new-match] 3445817394 #14756 #14160 #14306 ; #14307 (#120 #120) (#244 #244) (#3903 #14035)
[new-match] 348695290 #14756 #14160 #14344 ; #14685 (#120 #120) (#244 #244) (#3903 #14035)
[mk-app] #15020 uInv #270 #13971
[mk-app] #15016 or #13970 #15020
[mk-app] #15010 not #482
[mk-app] #15004 or #15010 #13970 #15020
[instance] 4245809972 ; 4
[attach-enode] #13969 4
[attach-enode] #13971 4
[attach-enode] #15020 4
[end-of-instance]
[mk-app] #15016 or #13970 #13979
[mk-app] #14941 not #210
[mk-app] #15001 or #14941 #13970 #13979
[instance] 877182954 ; 4
[attach-enode] #13978 4
[attach-enode] #13979 4
[end-of-instance]
[mk-app] #15016 not #183
[mk-app] #14998 or #15016 #14107 #14180
[instance] 2901573588 ; 2
[attach-enode] #14179 2
[attach-enode] #14180 2
[assign] #14180 justification -1: 27 2417
[end-of-instance]
[mk-app] #14819 or #13933 #14186
[mk-app] #14995 not #7343
[mk-app] #14976 or #14995 #13933 #14186
[instance] 3605618164 ; 2
[attach-enode] #14186 2
[assign] #14186 justification -1: 1240 2336
[end-of-instance]
[mk-app] #14819 = #14116 #13251
[mk-app] #14961 not #9051
[mk-app] #14957 or #14961 #14819
[instance] 3053543861 ; 2
[attach-enode] #14819 2
[assign] #14819 justification -1: 1465
[end-of-instance]
[mk-app] #14951 + #14528 #14841
[inst-discovered] theory-solving 0x0 arith# ; #14842
[mk-app] #14945 = #14842 #14951
[instance] 0x0 #14945
[attach-enode] #14945 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14945 >= #14951 #334
[inst-discovered] theory-solving 0x0 arith# ; #14945
[mk-app] #14942 = #14945 #14853
[instance] 0x0 #14942
[attach-enode] #14942 0
[end-of-instance]
[mk-app] #14951 not #14853
[mk-app] #14945 + #14723 #14841
[inst-discovered] theory-solving 0x0 arith# ; #14845
[mk-app] #14942 = #14845 #14945
[instance] 0x0 #14942
[attach-enode] #14942 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14942 + #14718 #14851
[mk-app] #14938 <= #14942 #334
[mk-app] #14935 >= #14945 #334
[inst-discovered] theory-solving 0x0 arith# ; #14935
[mk-app] #14912 = #14935 #14938
[instance] 0x0 #14912
[attach-enode] #14912 0
[end-of-instance]
[mk-app] #14945 or #14840 #14951 #14938 #14848
[inst-discovered] theory-solving 0x0 basic# ; #14945
[mk-app] #14935 = #14945 #14945
[instance] 0x0 #14935
[attach-enode] #14935 0
[end-of-instance]
[mk-app] #14935 or #14757 #14840 #14951 #14938 #14848
[instance] 3445817394 ; 5
[attach-enode] #14671 5
[attach-enode] #14942 5
[attach-enode] #14847 5
[attach-enode] #14848 5
[end-of-instance]
[assign] #14796 clause 2445 -2444
[assign] #14949 clause 2462 -2446 -2463
[assign] #14916 clause 2461 2448 -2462
[assign] #14911 clause 2460 -2461 2447
[assign] #14889 clause 2459 -2460 2453
[assign] #14787 justification -1: 2445 717 715 2269
[assign] #13969 justification -1: 2441 2439 2331 2328 1851
[assign] #14671 justification -1: 2230 2270
[eq-expl] #3556 root
[new-match] 2296941121 #164 #163 #3556 ; #14179
[new-match] 956082653 #11105 #11104 #14768 ; #14787 (#3200 #3204)
[eq-expl] #3563 lit #14180 ; #14179
[eq-expl] #14179 root
[new-match] 3667285938 #138 #137 #3556 ; #14106 (#135 #135) (#3563 #14179)
[mk-app] #14945 not #164
[mk-app] #14912 or #14945 #14224
[instance] 2296941121 ; 3
[attach-enode] #14223 3
[assign] #14224 justification -1: 24
[end-of-instance]
[mk-app] #14913 or #13752 #14864 #14867
[instance] 956082653 ; 4
[attach-enode] #14863 4
[attach-enode] #14865 4
[attach-enode] #14866 4
[attach-enode] #14867 4
[end-of-instance]
[assign] #14790 clause 2443 -2442
[assign] #15020 clause 2469 -2468
[assign] #13979 clause 2470 -2468
[assign] #14863 justification -1: 2442 717
[eq-expl] #13971 cg (#13250 #13821) ; #13822
[eq-expl] #13822 lit #13825 ; #13824
[new-match] 2039972352 #11540 #442 #13971 #270 ; #15020
[new-match] 1520299109 #6591 #6590 #6613 #14768 ; #14789
[new-match] 3343054564 #11027 #6605 #6612 #14768 ; #14789 (#6613 #6613)
[new-match] 669353760 #169 #168 #13971 ; #13978
[eq-expl] #13978 lit #13979 ; #13250
[new-match] 3954363791 #10995 #470 #13971 ; #13942 (#203 #203) (#13941 #13978)
[mk-app] #14894 or #13999 #14009
[mk-app] #14887 = #14894 #14003
[mk-app] #14876 not #14894
[mk-app] #14873 not #14887
[inst-discovered] theory-solving 0x0 basic# ; #14873
[mk-app] #14876 = #14873 #14873
[instance] 0x0 #14876
[attach-enode] #14876 0
[end-of-instance]
[mk-app] #14876 or #13345 #14873
[instance] 2039972352 ; 5
[attach-enode] #14007 5
[attach-enode] #14008 5
[attach-enode] #14003 5
[assign] (not #14887) justification -1: 58
[end-of-instance]
[mk-app] #14872 or #14371 #14875
[instance] 1520299109 ; 4
[attach-enode] #14874 4
[attach-enode] #14875 4
[assign] #14875 justification -1: 1159
[end-of-instance]
[mk-app] #14869 or #14374 #14788 #14885
[instance] 3343054564 ; 4
[mk-app] #14861 = #14884 #334
[mk-app] #14862 = #14883 #14884
[attach-enode] #14884 4
[attach-enode] #14877 4
[attach-enode] #14878 4
[attach-enode] #14879 4
[attach-enode] #14880 4
[attach-enode] #14881 4
[attach-enode] #14882 4
[attach-enode] #14883 4
[attach-enode] #14861 4
[attach-enode] #14862 4
[attach-enode] #14885 4
[assign] #14885 justification -1: 1160 2442
[end-of-instance]
[assign] #14867 clause 2480 -2479
[assign] #14003 justification -1: 2469 2162 2439
[new-match] 2718630501 #6591 #6590 #6587 #14768 ; #14874
[new-match] 1772708795 #3884 #3879 #14768 #244 #120 ; #14877
[new-match] 1771839088 #11940 #4193 #14344 #5644 #3903 #244 #120 ; #14877 (#14768 #14768) (#120 #120) (#120 #120) (#244 #244) (#244 #244)
[eq-expl] #14865 root
[new-match] 4248902211 #1462 #1461 #14865 ; #14866
[eq-expl] #14866 lit #14867 ; #14768
[new-match] 3016177539 #1513 #1512 #14865 ; #14787 (#3200 #3204) (#14768 #14866)
[mk-app] #14850 or #13454 #14891 #14892
[instance] 1772708795 ; 5
[attach-enode] #14890 5
[end-of-instance]
[mk-app] #14857 or #13451 #14794 #13614 #13510 #14897 #14901 #14910 #14906
[inst-discovered] theory-solving 0x0 basic# ; #14857
[mk-app] #14838 = #14857 #14857
[instance] 0x0 #14838
[attach-enode] #14838 0
[end-of-instance]
[mk-app] #14838 not #11940
[mk-app] #14839 or #14838 #13451 #14794 #13614 #13510 #14897 #14901 #14910 #14906
[instance] 1771839088 ; 5
[attach-enode] #14899 5
[assign] #14909 justification -1: -2393
[attach-enode] #14904 5
[attach-enode] #14905 5
[attach-enode] #14906 5
[end-of-instance]
[assign] (not #14894) clause -2483 -2484 2485
[assign] #13998 clause 2481 2483
[assign] (not #14009) clause -2482 2483
[assign] #14890 justification -1: 2442 717 715
[assign] #14892 clause 2492 -2491
[push] 10
[assign] (not #13228) decision axiom
[assign] (not #739) justification -1: -1813
[assign] (not #13264) justification -1: -1813 1953
[assign] (not #13268) justification -1: -1813 1953
[assign] (not #13397) justification -1: -1813 1953
[assign] (not #13401) justification -1: -1813 1953
[push] 11
[assign] (not #432) decision axiom
[assign] (not #155) justification -1: -1816
[assign] (not #13277) justification -1: -1816 1956
[assign] (not #13281) justification -1: -1816 1956
[assign] (not #13408) justification -1: -1816 1956
[assign] (not #13412) justification -1: -1816 1956
[push] 12
[assign] (not #13221) decision axiom
[assign] (not #13239) justification -1: -1819
[assign] (not #13290) justification -1: -1819 1959
[assign] (not #13294) justification -1: -1819 1959
[assign] (not #13419) justification -1: -1819 1959
[assign] (not #13423) justification -1: -1819 1959
[decide-and-or] #13227 #3277
[push] 13
[assign] #3277 decision axiom
[assign] #3450 clause 1879 -1889 -1890
[assign] #1047 clause 1880 -1879
[assign] #726 clause 1882 -1880
[assign] (not #719) clause -1887 -1882 -1888
[assign] #1782 clause 1883 1887
[assign] #3377 clause 1884 1887
[push] 14
[assign] (not #3557) decision axiom
[assign] (not #3556) clause -1869 1870 -1883
[assign] (not #14117) clause -2418 1869 -2419
[assign] (not #14223) clause -2477 1869 -2478
[assign] (not #13786) justification -1: -1870 1852
[assign] (not #14494) justification -1: -1870 2329 1852
[assign] (not #14496) justification -1: -2418 2473
[assign] #14812 clause 2458 2457
[assign] #14805 clause 2455 -2458 -2459
[mk-app] #14857 = #14801 #8386
[mk-app] #14836 => #14805 #14857
[inst-discovered] theory-solving 0x0 datatype# ; #14801
[instance] 0 #14836
[end-of-instance]
[attach-enode] #8386 0
[resolve-process] true
[resolve-lit] 0 (not #14805)
[conflict] (not #14805)
[pop] 1 15
[assign] (not #14805) axiom
[assign] (not #14812) clause -2458 2455 -2459
[assign] #14496 clause 2457 2458
[assign] (not #14494) clause -2456 2458
[assign] #14117 justification -1: 2457 2473
[assign] (not #3557) justification -1: -2456 2329 1852
[assign] (not #13786) justification -1: -2456 2329
[assign] #3556 clause 1869 -2418 -2419
[resolve-process] true
[resolve-lit] 0 (not #3556)
[resolve-lit] 0 #3557
[resolve-lit] 0 (not #1782)
[resolve-process] (not #3556)
[resolve-lit] 0 (not #14117)
[resolve-lit] 4 (not #14118)
[resolve-process] #3557
[resolve-lit] 0 #14494
[resolve-process] (not #14117)
[resolve-lit] 0 (not #14496)
[resolve-lit] 4 (not #14819)
[resolve-process] #14494
[resolve-lit] 0 #14812
[resolve-process] (not #14496)
[resolve-process] #14812
[resolve-lit] 0 #14805
[resolve-lit] 4 (not #14889)
[resolve-process] #14805
[conflict] (not #1782) (not #14118) (not #14889)
[pop] 4 14
[assign] (not #14805) axiom
[assign] (not #1782) clause -1883 -2419 -2459
[assign] (not #14812) clause -2458 2455 -2459
[assign] #3556 clause 1869 1883
[assign] (not #3557) clause -1870 1883
[assign] #719 clause 1887 1883
[assign] #14496 clause 2457 2458
[assign] (not #14494) clause -2456 2458
[assign] #14117 clause 2418 -1869 -2419
[assign] #14223 clause 2477 -1869 -2478
[assign] (not #726) clause -1882 -1887 -1888
[assign] #3543 clause 1871 1882
[assign] #3528 clause 1872 1882
[assign] #3521 clause 1873 1882
[assign] #3466 clause 1874 1882
[assign] #737 clause 1881 1882
[assign] (not #1047) clause -1880 1882
[assign] #11007 clause 1878 1880
[assign] (not #3450) clause -1879 1880
[assign] (not #3277) clause -1889 1879 -1890
[assign] (not #13786) justification -1: -1870 1852
[new-match] 628233173 #55 #51 #1623 #120 #3542 ; #3543 (#11178 #11178) #3535 (#3542 #3542)
[new-match] 3056961563 #62 #59 #1623 #120 #3542 ; #3543 (#11178 #11178) #3473 (#3542 #3542)
[eq-expl] #3529 lit #3521 ; #3542
[eq-expl] #3162 root
[new-match] 3811576095 #12508 #7263 #3162 #3529 ; #11007
[mk-app] #14857 not #55
[mk-app] #14836 or #14857 #746 #14230
[instance] 628233173 ; 1
[attach-enode] #14230 1
[assign] #14230 justification -1: 5 1871
[end-of-instance]
[mk-app] #14837 not #62
[mk-app] #14829 or #14837 #746 #14234
[instance] 3056961563 ; 1
[attach-enode] #14234 1
[assign] #14234 justification -1: 6 1871
[end-of-instance]
[mk-app] #14834 Poly%core!option.Option. #3162
[mk-app] #14832 has_type #14834 #7230
[mk-app] #14833 not #14832
[mk-app] #14830 u_tokenizer!lex.impl&%1.wf.? #3473
[mk-app] #14831 not #14830
[mk-app] #14823 u_tokenizer!lex.impl&%1.text.? #3473
[mk-app] #14820 u_tokenizer!lex.impl&%1.text.? #3535
[mk-app] #14798 = #14823 #14820
[mk-app] #14799 not #14798
[mk-app] #14792 u_tokenizer!lex.impl&%1.at.? #3535
[mk-app] #14777 Poly%vstd!seq.Seq<char.>. #14820
[mk-app] #14778 vstd!seq.Seq.len.? #120 #244 #14777
[mk-app] #14774 * #363 #14778
[mk-app] #14775 + #14792 #14774
[mk-app] #14771 >= #14775 #334
[mk-app] #14772 u_tokenizer!lex.impl&%1.at.? #3473
[mk-app] #14765 Add #14792 #289
[mk-app] #14766 = #14772 #14765
[mk-app] #14716 not #14766
[mk-app] #14715 is #3162
[mk-app] #14717 not #14715
[mk-app] #15036 %Poly%core!option.Option. #14834
[mk-app] #15037 core!option.Option./Some/0 #3840 #7229 #15036
[mk-app] #15038 %Poly%tuple%2. #15037
[mk-app] #15039 tuple%2./tuple%2/0 #15038
[mk-app] #15040 %I #15039
[mk-app] #15041 I #14792
[mk-app] #15042 u_tokenizer!text.bpos.? #14777 #15041
[mk-app] #15043 = #15040 #15042
[mk-app] #15044 not #15043
[mk-app] #15045 tuple%2./tuple%2/1 #15038
[mk-app] #15046 vstd!seq.Seq.index.? #120 #244 #14777 #15041
[mk-app] #15047 = #15045 #15046
[mk-app] #15048 not #15047
[mk-app] #15049 or #14716 #14717 #15044 #15048
[mk-app] #15050 not #15049
[mk-app] #15051 or #14771 #15050
[mk-app] #15052 not #15051
[mk-app] #15053 not #14771
[mk-app] #15054 is #3162
[mk-app] #15055 not #15054
[mk-app] #15056 = #14772 #14792
[mk-app] #15057 not #15056
[mk-app] #15058 or #15055 #15057
[mk-app] #15059 not #15058
[mk-app] #15060 or #15053 #15059
[mk-app] #15061 not #15060
[mk-app] #15062 or #14833 #14831 #14799 #15052 #15061
[mk-app] #15063 ens%u_tokenizer!lex.impl&%1.next. #3542 #3162
[mk-app] #15064 = #15062 #15063
[mk-app] #15065 not #15064
[mk-app] #15066 + #14774 #14792
[inst-discovered] theory-solving 0x0 arith# ; #14775
[mk-app] #15067 = #14775 #15066
[instance] 0x0 #15067
[attach-enode] #15067 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #15067 * #363 #14792
[mk-app] #15068 + #14778 #15067
[mk-app] #15069 <= #15068 #334
[mk-app] #15070 >= #15066 #334
[inst-discovered] theory-solving 0x0 arith# ; #15070
[mk-app] #15071 = #15070 #15069
[instance] 0x0 #15071
[attach-enode] #15071 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #15049
[mk-app] #15066 = #15049 #15049
[instance] 0x0 #15066
[attach-enode] #15066 0
[end-of-instance]
[mk-app] #15066 or #15069 #15050
[inst-discovered] theory-solving 0x0 basic# ; #15066
[mk-app] #15070 = #15066 #15066
[instance] 0x0 #15070
[attach-enode] #15070 0
[end-of-instance]
[mk-app] #15070 not #15066
[mk-app] #15071 not #15069
[mk-app] #15072 or #15071 #15059
[inst-discovered] theory-solving 0x0 basic# ; #15072
[mk-app] #15073 = #15072 #15072
[instance] 0x0 #15073
[attach-enode] #15073 0
[end-of-instance]
[mk-app] #15073 not #15072
[mk-app] #15074 or #14833 #14831 #14799 #15070 #15073
[inst-discovered] theory-solving 0x0 basic# ; #15074
[mk-app] #15075 = #15074 #15074
[instance] 0x0 #15075
[attach-enode] #15075 0
[end-of-instance]
[mk-app] #15075 = #15074 #15063
[mk-app] #15076 not #15074
[mk-app] #15077 not #15075
[inst-discovered] theory-solving 0x0 basic# ; #15077
[mk-app] #15076 = #15077 #15077
[instance] 0x0 #15076
[attach-enode] #15076 0
[end-of-instance]
[mk-app] #15076 not #12508
[mk-app] #15078 or #15076 #15077
[instance] 3811576095 ; 1
[attach-enode] #14834 1
[attach-enode] #14832 1
[attach-enode] #14830 1
[attach-enode] #14823 1
[attach-enode] #14820 1
[attach-enode] #14798 1
[attach-enode] #14777 1
[attach-enode] #14778 1
[attach-enode] #14792 1
[attach-enode] #15067 1
[attach-enode] #15068 1
[attach-enode] #14772 1
[attach-enode] #14765 1
[attach-enode] #14766 1
[attach-enode] #14715 1
[attach-enode] #15036 1
[attach-enode] #15037 1
[attach-enode] #15038 1
[mk-app] #15079 tuple%2./tuple%2/?0 #15038
[mk-app] #15080 tuple%2./tuple%2/?1 #15038
[mk-app] #15081 tuple%2./tuple%2 #15079 #15080
[attach-enode] #15079 1
[attach-enode] #15080 1
[attach-enode] #15081 1
[mk-app] #15082 tuple%2./tuple%2/?0 #15081
[mk-app] #15083 = #15079 #15082
[new-match] 0 datatype#220 datatype#217 #15079 #15080 ; #15081
[instance] 0 #15083
[attach-enode] #15082 1
[end-of-instance]
[mk-app] #15083 tuple%2./tuple%2/?1 #15081
[mk-app] #15084 = #15080 #15083
[new-match] 0 datatype#223 datatype#217 #15079 #15080 ; #15081
[instance] 0 #15084
[attach-enode] #15083 1
[end-of-instance]
[attach-enode] #15039 1
[attach-enode] #15040 1
[attach-enode] #15041 1
[attach-enode] #15042 1
[attach-enode] #15043 1
[attach-enode] #15045 1
[attach-enode] #15046 1
[attach-enode] #15047 1
[attach-enode] #15054 1
[attach-enode] #15056 1
[attach-enode] #15063 1
[assign] (not #15075) justification -1: 1236
[end-of-instance]
[assign] #15063 justification -1: 1878 1873
[eq-expl] #3535 root
[new-match] 2037044517 #1633 #1629 #3535 ; #14230 (#1623 #1623)
[eq-expl] #3473 root
[new-match] 4145997470 #1633 #1629 #3473 ; #14234 (#1623 #1623)
[mk-app] #15084 not #1633
[mk-app] #15085 or #15084 #14244 #14246
[instance] 2037044517 ; 2
[attach-enode] #14245 2
[attach-enode] #14246 2
[assign] #14246 justification -1: 501 2496
[end-of-instance]
[mk-app] #15086 or #15084 #14250 #14252
[instance] 4145997470 ; 2
[attach-enode] #14251 2
[attach-enode] #14252 2
[assign] #14252 justification -1: 501 2497
[end-of-instance]
[assign] (not #15074) clause -2512 -2513 2514
[assign] #14832 clause 2498 2512
[assign] #14830 clause 2499 2512
[assign] #14798 clause 2500 2512
[assign] #15066 clause 2507 2512
[assign] #15072 clause 2511 2512
[assign] #2949 justification -1: 2499 2516 1874
[assign] #427 justification -1: 1835 1962 2500 1966 1965 1962 2515 1872 2516 1874
[mk-app] #15087 = #3764 #14792
[attach-meaning] #363 arith (- 1)
[mk-app] #15088 + #3764 #15067
[mk-app] #15089 <= #15088 #334
[mk-app] #15090 >= #15088 #334
[assign] #15087 justification -1: 2515 1872
[attach-enode] #15087 0
[attach-enode] #15088 0
[assign] #15089 justification -1: 2517
[assign] #15090 justification -1: 2517
[mk-app] #15091 = #3865 #14778
[attach-meaning] #363 arith (- 1)
[mk-app] #15092 + #3865 #14774
[mk-app] #15093 <= #15092 #334
[mk-app] #15094 >= #15092 #334
[assign] #15091 justification -1: 1965 1966 1962 2515 1872
[attach-enode] #15091 0
[attach-enode] #14774 0
[attach-enode] #15092 0
[assign] #15093 justification -1: 2520
[assign] #15094 justification -1: 2520
[eq-expl] #3522 lit #3466 ; #3474
[eq-expl] #3474 root
[new-match] 1829245385 #1622 #1621 #3522 ; #2975
[eq-expl] #3473 lit #14252 ; #14251
[eq-expl] #14251 root
[new-match] 2462853094 #12488 #7202 #3473 ; #14830
[eq-expl] #14834 root
[new-match] 2192436563 #1713 #1709 #14834 #7229 #3840 ; #14832 (#7230 #7230)
[new-match] 2192983326 #1702 #1701 #3162 ; #14834
[eq-expl] #3535 lit #14246 ; #14245
[eq-expl] #3536 lit #3528 ; #3922
[eq-expl] #14245 cg (#3536 #3922) ; #3923
[new-match] 62391177 #1636 #1635 #3922 ; #14230 (#1623 #1623) (#3535 #3923)
[eq-expl] #2975 cg (#3522 #3474) ; #14251
[new-match] 3505151154 #1636 #1635 #3522 ; #14234 (#1623 #1623) (#3473 #2975)
[mk-app] #15095 u_tokenizer!lex.impl&%1.at.? #14251
[mk-app] #15096 >= #15095 #334
[mk-app] #15097 not #15096
[mk-app] #15098 u_tokenizer!lex.impl&%1.text.? #14251
[mk-app] #15099 Poly%vstd!seq.Seq<char.>. #15098
[mk-app] #15100 vstd!seq.Seq.len.? #120 #244 #15099
[mk-app] #15101 * #363 #15100
[mk-app] #15102 + #15095 #15101
[mk-app] #15103 <= #15102 #334
[mk-app] #15104 not #15103
[mk-app] #15105 u_tokenizer!text.blen.? #15099
[mk-app] #15106 * #363 #15105
[mk-app] #15107 + #330 #15106
[mk-app] #15108 >= #15107 #289
[mk-app] #15109 not #15108
[mk-app] #15110 or #15097 #15104 #15109
[mk-app] #15111 u_tokenizer!lex.impl&%1.wf.? #14251
[mk-app] #15112 = #15110 #15111
[mk-app] #15113 not #15112
[mk-app] #15114 not #15110
[inst-discovered] theory-solving 0x0 basic# ; #15113
[mk-app] #15114 = #15113 #15113
[instance] 0x0 #15114
[attach-enode] #15114 0
[end-of-instance]
[mk-app] #15114 or #13637 #15113
[instance] 2462853094 ; 2
[attach-enode] #15095 2
[attach-enode] #15098 2
[attach-enode] #15099 2
[attach-enode] #15100 2
[attach-enode] #15101 2
[attach-enode] #15102 2
[attach-enode] #15105 2
[attach-enode] #15106 2
[attach-enode] #15107 2
[attach-enode] #15111 2
[assign] (not #15112) justification -1: 1234
[end-of-instance]
[mk-app] #15115 Poly%core!option.Option. #15036
[mk-app] #15116 = #14834 #15115
[mk-app] #15117 or #14833 #15116
[mk-app] #15118 or #4783 #14833 #15116
[instance] 2192436563 ; 2
[attach-enode] #15115 2
[attach-enode] #15116 2
[assign] #15116 justification -1: 513 2498
[end-of-instance]
[mk-app] #15119 = #3162 #15036
[mk-app] #15120 or #13330 #15119
[instance] 2192983326 ; 2
[attach-enode] #15119 2
[assign] #15119 justification -1: 512
[end-of-instance]
[assign] #447 clause 1901 -1900
[assign] #430 clause 1904 -1903
[assign] #15111 justification -1: 2499 2516
[mk-app] #15121 = #2908 #15095
[attach-meaning] #363 arith (- 1)
[mk-app] #15122 * #363 #15095
[mk-app] #15123 + #2908 #15122
[mk-app] #15124 <= #15123 #334
[mk-app] #15125 >= #15123 #334
[assign] #15121 justification -1: 2516 2516 1874
[attach-enode] #15121 0
[attach-enode] #15122 0
[attach-enode] #15123 0
[assign] #15124 justification -1: 2531
[assign] #15125 justification -1: 2531
[mk-app] #15126 = #3865 #15100
[attach-meaning] #363 arith (- 1)
[mk-app] #15127 + #3865 #15101
[mk-app] #15128 <= #15127 #334
[mk-app] #15129 >= #15127 #334
[assign] #15126 justification -1: 1965 2500 1966 1962 2515 1872 2516
[attach-enode] #15126 0
[attach-enode] #15127 0
[assign] #15128 justification -1: 2534
[assign] #15129 justification -1: 2534
[mk-app] #15130 = #13626 #15105
[attach-meaning] #363 arith (- 1)
[mk-app] #15131 + #13626 #15106
[mk-app] #15132 <= #15131 #334
[mk-app] #15133 >= #15131 #334
[assign] #15130 justification -1: 1962 1965 2500 1966 1962 2515 1872 2516
[attach-enode] #15130 0
[attach-enode] #15131 0
[assign] #15132 justification -1: 2537
[assign] #15133 justification -1: 2537
[eq-expl] #15036 root
[new-match] 535486139 #1702 #1701 #15036 ; #15115
[assign] (not #15110) clause -2526 -2527 2528
[assign] #15096 clause 2523 2526
[assign] #15103 clause 2524 2526
[assign] #15108 clause 2525 2526
[push] 10
[assign] (not #13228) decision axiom
[assign] (not #739) justification -1: -1813
[assign] (not #13264) justification -1: -1813 1953
[assign] (not #13268) justification -1: -1813 1953
[assign] (not #13397) justification -1: -1813 1953
[assign] (not #13401) justification -1: -1813 1953
[push] 11
[assign] (not #432) decision axiom
[assign] (not #155) justification -1: -1816
[assign] (not #13277) justification -1: -1816 1956
[assign] (not #13281) justification -1: -1816 1956
[assign] (not #13408) justification -1: -1816 1956
[assign] (not #13412) justification -1: -1816 1956
[push] 12
[assign] (not #13221) decision axiom
[assign] (not #13239) justification -1: -1819
[assign] (not #13290) justification -1: -1819 1959
[assign] (not #13294) justification -1: -1819 1959
[assign] (not #13419) justification -1: -1819 1959
[assign] (not #13423) justification -1: -1819 1959
[decide-and-or] #13227 #438
[push] 13
[assign] (not #373) decision axiom
[assign] #2924 clause 1905 1909
[assign] #453 clause 1908 1909
[decide-and-or] #453 #402
[push] 14
[assign] (not #406) decision axiom
[decide-and-or] #13388 #13381
[push] 15
[assign] (not #13380) decision axiom
[assign] #13376 clause 1943 1945
[assign] #13378 clause 1944 1945
[assign] (not #13382) clause -1946 -1944
[assign] #13384 clause 1947 -1944
[assign] #13386 clause 1948 1946
[push] 16
[assign] (not #14420) decision axiom
[assign] #14422 clause 2203 2200
[assign] #13858 clause 2208 2200 -2209
[assign] #13872 clause 2364 2200 -2209 -2383
[assign] #14055 clause 2365 2200 -2209 -2383
[assign] (not #14428) clause -2204 -2203 -2205
[assign] #14081 clause 2371 -2364
[assign] #14073 clause 2369 -2365
[assign] #14424 clause 2201 2204
[assign] #14426 clause 2202 2204
[push] 17
[assign] (not #13856) decision axiom
[push] 18
[assign] (not #14571) decision axiom
[assign] #14632 clause 2296 2299
[assign] (not #13785) clause -2297 2299
[assign] #14440 clause 2298 2299
[assign] #14568 clause 2301 2299
[assign] (not #14504) clause -2206 2297 -2321
[assign] #14391 clause 2207 2297 -2272 -2290 -2191 -2321
[assign] #14853 clause 2408 2297 -2409 -2321 -2290 -2272
[assign] (not #15069) clause -2501 2297 -2191 -2321 -2175 -2519 -2521
[eq-expl] #14460 root
[new-match] 32987901 #12713 #8310 #14460 #14321 ; #14440
[new-match] 3565802016 #8330 #8329 #8363 #14321 #14588 #3903 ; #14603
[new-match] 2894292669 #14756 #14160 #14394 ; #14460 (#120 #120) (#244 #244) (#3903 #14035)
[new-match] 884881102 #11858 #3908 #14394 #3903 #244 #120 ; #14460
[eq-expl] #14578 root
[new-match] 2126151745 #169 #168 #14578 ; #14588
[new-match] 2800690745 #550 #548 #289 #14653 ; #14578
[mk-app] #15134 or #14952 #14934
[instance] 32987901 ; 4
[attach-enode] #14917 4
[attach-enode] #14918 4
[attach-enode] #14919 4
[attach-enode] #14921 4
[attach-enode] #14922 4
[attach-enode] #14924 4
[attach-enode] #14926 4
[assign] #14934 justification -1: 1413
[end-of-instance]
[mk-app] #15135 or #14665 #14937
[instance] 3565802016 ; 4
[attach-enode] #14936 4
[attach-enode] #14937 4
[assign] #14937 justification -1: 1415
[end-of-instance]
[mk-app] #15136 not #11858
[mk-app] #15137 or #15136 #13451 #14669 #14939
[instance] 884881102 ; 4
[attach-enode] #14939 4
[assign] #14939 justification -1: 816 1967 2294
[end-of-instance]
[mk-app] #15138 or #14221 #14944
[instance] 2126151745 ; 4
[attach-enode] #14943 4
[attach-enode] #14944 4
[assign] #14944 justification -1: 25
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #15139 + #14200 #14946
[mk-app] #15140 = #15139 #363
[inst-discovered] theory-solving 0x0 arith# ; #14948
[mk-app] #15141 = #14948 #15140
[instance] 0x0 #15141
[attach-enode] #15141 0
[end-of-instance]
[mk-app] #15141 or #13974 #15140
[instance] 2800690745 ; 4
[attach-enode] #14521 4
[attach-enode] #14946 4
[attach-enode] #15139 4
[attach-enode] #15140 4
[mk-app] #15142 <= #15139 #363
[mk-app] #15143 >= #15139 #363
[assign] #15140 justification -1: 76
[end-of-instance]
[assign] (not #15049) clause -2506 2501 -2507
[assign] #14933 clause 2551 -2552
[assign] #15142 clause 2557 -2556
[assign] #15143 clause 2558 -2556
[assign] #14766 clause 2502 2506
[assign] #14715 clause 2503 2506
[assign] #15043 clause 2504 2506
[assign] #15047 clause 2505 2506
[assign] #14932 clause 2550 -2551
[assign] #14931 clause 2549 -2550
[assign] #14930 clause 2548 -2549
[assign] (not #14928) clause -2547 -2548
[assign] #14926 clause 2546 2547
[assign] (not #14924) clause -2545 2547
[mk-app] #15144 core!option.Option./Some/?0 #3162
[mk-app] #15145 core!option.Option./Some #15144
[mk-app] #15146 = #3162 #15145
[mk-app] #15147 => #14715 #15146
[inst-discovered] theory-solving 0x0 datatype# ; #3162
[instance] 0 #15147
[end-of-instance]
[attach-enode] #15144 0
[attach-enode] #15145 0
[mk-app] #15146 core!option.Option./Some/?0 #15145
[mk-app] #15147 = #15144 #15146
[new-match] 0 datatype#15 datatype#12 #15144 ; #15145
[instance] 0 #15147
[attach-enode] #15146 0
[end-of-instance]
[mk-app] #15147 = #2908 #3594
[attach-meaning] #363 arith (- 1)
[mk-app] #15148 + #2908 #14025
[mk-app] #15149 <= #15148 #334
[mk-app] #15150 >= #15148 #334
[assign] #15147 justification -1: 2502 2515 1872 2516 1874
[attach-enode] #15147 0
[attach-enode] #14025 0
[attach-enode] #15148 0
[assign] #15149 justification -1: 2559
[assign] #15150 justification -1: 2559
[new-match] 1190380143 #8330 #8329 #6587 #14321 #14588 #3903 ; #14936
[new-match] 4262242206 #525 #247 #14460 ; #14939 (#244 #244)
[new-match] 3418653225 #251 #247 #14460 ; #14939 (#244 #244)
[eq-expl] #15038 ax ; #15081
[eq-expl] #15081 root
[new-match] 263114432 #2775 #2774 #15038 ; #15045
[new-match] 1502330526 #2763 #2762 #15038 ; #15039
[new-match] 3589829869 #1739 #1734 #15036 #7229 #3840 ; #15037
[eq-expl] #14834 lit #15116 ; #15115
[eq-expl] #15115 root
[new-match] 3711439481 #1746 #1743 #14834 #7229 #3840 ; #15037 (#15036 #15036) #7230 (#3840 #3840) (#7229 #7229) #14832 (#14834 #15115) (#7230 #7230)
[eq-expl] #15144 ax ; #15146
[eq-expl] #15146 root
[eq-expl] #15145 unknown ; #3162
[eq-expl] #3162 lit #15119 ; #15036
[new-match] 3094127524 #1728 #1724 #15144 #7229 #3840 ; #14832 (#14834 #15115) (#7230 #7230) (#15036 #15145)
[inst-discovered] theory-solving 0x0 basic# ; #14956
[mk-app] #15151 = #14956 #14956
[instance] 0x0 #15151
[attach-enode] #15151 0
[end-of-instance]
[mk-app] #15151 or #14408 #14954 #14955
[instance] 4262242206 ; 5
[attach-enode] #14955 5
[assign] #14955 justification -1: 71 2554
[end-of-instance]
[mk-app] #15152 or #14396 #14954 #14959
[instance] 3418653225 ; 5
[attach-enode] #14958 5
[attach-enode] #14959 5
[assign] #14959 justification -1: 35 2554
[end-of-instance]
[mk-app] #15153 tuple%2./tuple%2/1 #15081
[mk-app] #15154 = #15153 #15083
[inst-discovered] theory-solving 0x0 datatype# ; #15083
[mk-app] #15155 = #15083 #15080
[instance] 0x0 #15155
[attach-enode] #15155 0
[end-of-instance]
[mk-app] #15155 = #15153 #15080
[mk-app] #15156 or #14300 #15155
[instance] 263114432 ; 2
[attach-enode] #15153 2
[attach-enode] #15155 2
[assign] #15155 justification -1: 670
[end-of-instance]
[mk-app] #15157 tuple%2./tuple%2/0 #15081
[mk-app] #15158 = #15157 #15082
[inst-discovered] theory-solving 0x0 datatype# ; #15082
[mk-app] #15159 = #15082 #15079
[instance] 0x0 #15159
[attach-enode] #15159 0
[end-of-instance]
[mk-app] #15159 = #15157 #15079
[mk-app] #15160 or #14825 #15159
[instance] 1502330526 ; 2
[attach-enode] #15157 2
[attach-enode] #15159 2
[assign] #15159 justification -1: 668
[end-of-instance]
[mk-app] #15161 is #15036
[mk-app] #15162 not #15161
[mk-app] #15163 core!option.Option./Some/?0 #15036
[mk-app] #15164 = #15037 #15163
[mk-app] #15165 or #15162 #15164
[mk-app] #15166 or #13878 #15162 #15164
[instance] 3589829869 ; 2
[attach-enode] #15161 2
[attach-enode] #15163 2
[attach-enode] #15164 2
[end-of-instance]
[mk-app] #15167 has_type #15115 #7230
[mk-app] #15168 not #15167
[mk-app] #15169 %Poly%core!option.Option. #15115
[mk-app] #15170 core!option.Option./Some/0 #3840 #7229 #15169
[mk-app] #15171 has_type #15170 #7229
[mk-app] #15172 or #15168 #15171
[mk-app] #15173 or #14314 #15168 #15171
[instance] 3711439481 ; 2
[attach-enode] #15167 2
[attach-enode] #15169 2
[attach-enode] #15170 2
[attach-enode] #15171 2
[end-of-instance]
[assign] #15161 justification -1: 2503 2530
[assign] #15167 justification -1: 2498 2529
[resolve-process] true
[resolve-lit] 0 (not #15150)
[resolve-lit] 4 #406
[conflict] (not #15150) #406
[pop] 4 19
[attach-enode] #14025 0
[attach-enode] #15148 0
[assign] (not #15150) clause -2540 1906
[decide-and-or] #13388 #13381
[push] 15
[assign] (not #13380) decision axiom
[assign] #13376 clause 1943 1945
[assign] #13378 clause 1944 1945
[assign] (not #13382) clause -1946 -1944
[assign] #13384 clause 1947 -1944
[assign] #13386 clause 1948 1946
[push] 16
[assign] (not #14420) decision axiom
[assign] #14422 clause 2203 2200
[assign] #13858 clause 2208 2200 -2209
[assign] #13872 clause 2364 2200 -2209 -2383
[assign] #14055 clause 2365 2200 -2209 -2383
[assign] (not #14428) clause -2204 -2203 -2205
[assign] #14081 clause 2371 -2364
[assign] #14073 clause 2369 -2365
[assign] #14424 clause 2201 2204
[assign] #14426 clause 2202 2204
[push] 17
[assign] (not #13856) decision axiom
[push] 18
[assign] (not #14571) decision axiom
[assign] #14632 clause 2296 2299
[assign] (not #13785) clause -2297 2299
[assign] #14440 clause 2298 2299
[assign] #14568 clause 2301 2299
[assign] (not #14504) clause -2206 2297 -2321
[assign] #14391 clause 2207 2297 -2272 -2290 -2191 -2321
[assign] #14853 clause 2408 2297 -2409 -2321 -2290 -2272
[assign] (not #15069) clause -2501 2297 -2191 -2321 -2175 -2519 -2521
[assign] (not #15049) clause -2506 2501 -2507
[assign] #14766 clause 2502 2506
[assign] #14715 clause 2503 2506
[assign] #15043 clause 2504 2506
[assign] #15047 clause 2505 2506
[mk-app] #15139 core!option.Option./Some/?0 #3162
[mk-app] #15140 core!option.Option./Some #15139
[mk-app] #15142 = #3162 #15140
[mk-app] #15143 => #14715 #15142
[inst-discovered] theory-solving 0x0 datatype# ; #3162
[instance] 0 #15143
[end-of-instance]
[attach-enode] #15139 0
[attach-enode] #15140 0
[mk-app] #15142 core!option.Option./Some/?0 #15140
[mk-app] #15143 = #15139 #15142
[new-match] 0 datatype#15 datatype#12 #15139 ; #15140
[instance] 0 #15143
[attach-enode] #15142 0
[end-of-instance]
[mk-app] #15143 = #2908 #3594
[attach-meaning] #363 arith (- 1)
[mk-app] #15144 <= #15148 #334
[assign] #15143 justification -1: 2502 2515 1872 2516 1874
[attach-enode] #15143 0
[assign] #15144 justification -1: -2540
[resolve-process] true
[resolve-lit] 4 #15150
[resolve-lit] 0 (not #15143)
[conflict] (not #15143) #15150
[pop] 4 19
[attach-enode] #15143 0
[attach-meaning] #363 arith (- 1)
[mk-app] #15139 <= #15148 #334
[assign] #15139 justification -1: -2540
[assign] (not #15143) justification -1: -2540
[assign] (not #14766) justification -1: -2541 2515 1872 2516 1874
[assign] #15049 clause 2506 2502
[assign] #15069 clause 2501 -2506 -2507
[assign] (not #15058) clause -2510 -2501 -2511
[assign] #13785 clause 2297 -2501 -2191 -2321 -2175 -2519 -2521
[assign] #15054 clause 2508 2510
[assign] #15056 clause 2509 2510
[assign] #14571 clause 2299 -2297
[assign] #14120 clause 2300 -2299
[mk-app] #15140 = #3162 #1714
[mk-app] #15142 => #15054 #15140
[inst-discovered] theory-solving 0x0 datatype# ; #3162
[instance] 0 #15142
[end-of-instance]
[mk-app] #15140 = #14036 #14653
[attach-meaning] #363 arith (- 1)
[mk-app] #15142 + #14036 #14029
[mk-app] #15144 <= #15142 #334
[mk-app] #15145 >= #15142 #334
[assign] #15140 justification -1: 2300 2302 2293 2464 2397 2398 2390 2387 2265 2266 2267 1961 2254 2253 2267 1965
[attach-enode] #15140 0
[attach-enode] #15142 0
[assign] #15144 justification -1: 2543
[assign] #15145 justification -1: 2543
[mk-app] #15146 = #2908 #14792
[attach-meaning] #363 arith (- 1)
[mk-app] #15147 + #2908 #15067
[mk-app] #15149 <= #15147 #334
[mk-app] #15155 >= #15147 #334
[assign] #15146 justification -1: 2509 2516 1874
[attach-enode] #15146 0
[attach-enode] #15147 0
[assign] #15149 justification -1: 2546
[assign] #15155 justification -1: 2546
[resolve-process] true
[resolve-lit] 5 #13257
[resolve-lit] 0 (not #15069)
[resolve-lit] 5 (not #15090)
[resolve-lit] 5 (not #15093)
[conflict] (not #15069) #13257 (not #15090) (not #15093)
[pop] 5 15
[attach-enode] #14025 0
[attach-enode] #15148 0
[attach-enode] #15143 0
[attach-meaning] #363 arith (- 1)
[mk-app] #15139 <= #15148 #334
[assign] (not #15069) clause -2501 1886 -2519 -2521
[assign] (not #15049) clause -2506 2501 -2507
[assign] #14766 clause 2502 2506
[assign] #14715 clause 2503 2506
[assign] #15043 clause 2504 2506
[assign] #15047 clause 2505 2506
[mk-app] #15140 core!option.Option./Some/?0 #3162
[mk-app] #15142 core!option.Option./Some #15140
[mk-app] #15144 = #3162 #15142
[mk-app] #15145 => #14715 #15144
[inst-discovered] theory-solving 0x0 datatype# ; #3162
[instance] 0 #15145
[end-of-instance]
[attach-enode] #15140 0
[attach-enode] #15142 0
[mk-app] #15144 core!option.Option./Some/?0 #15142
[mk-app] #15145 = #15140 #15144
[new-match] 0 datatype#15 datatype#12 #15140 ; #15142
[instance] 0 #15145
[attach-enode] #15144 0
[end-of-instance]
[assign] #15143 justification -1: 2502 2515 1872 2516 1874
[new-match] 263114432 #2775 #2774 #15038 ; #15045
[new-match] 1502330526 #2763 #2762 #15038 ; #15039
[eq-expl] #15036 root
[new-match] 3589829869 #1739 #1734 #15036 #7229 #3840 ; #15037
[new-match] 3711439481 #1746 #1743 #14834 #7229 #3840 ; #15037 (#15036 #15036) #7230 (#3840 #3840) (#7229 #7229) #14832 (#14834 #15115) (#7230 #7230)
[eq-expl] #15140 ax ; #15144
[eq-expl] #15144 root
[eq-expl] #15142 unknown ; #3162
[eq-expl] #3162 lit #15119 ; #15036
[new-match] 3094127524 #1728 #1724 #15140 #7229 #3840 ; #14832 (#14834 #15115) (#7230 #7230) (#15036 #15142)
[mk-app] #15145 = #15153 #15080
[mk-app] #15146 or #14300 #15145
[instance] 263114432 ; 2
[attach-enode] #15153 2
[attach-enode] #15145 2
[assign] #15145 justification -1: 670
[end-of-instance]
[mk-app] #15147 = #15157 #15079
[mk-app] #15149 or #14825 #15147
[instance] 1502330526 ; 2
[attach-enode] #15157 2
[attach-enode] #15147 2
[assign] #15147 justification -1: 668
[end-of-instance]
[mk-app] #15155 or #13878 #15162 #15164
[instance] 3589829869 ; 2
[attach-enode] #15161 2
[attach-enode] #15163 2
[attach-enode] #15164 2
[end-of-instance]
[mk-app] #15159 or #14314 #15168 #15171
[instance] 3711439481 ; 2
[attach-enode] #15167 2
[attach-enode] #15169 2
[attach-enode] #15170 2
[attach-enode] #15171 2
[end-of-instance]
[assign] #15139 clause 2542 -2541
[assign] #15150 clause 2540 -2541
[assign] #406 clause 1906 -2540
[assign] #15161 justification -1: 2503 2530
[assign] #15167 justification -1: 2498 2529
[assign] #408 clause 1907 1886 -2172 -2542
[assign] #15164 clause 2546 -2545
[assign] #15171 clause 2548 -2547
[assign] (not #453) clause -1908 -1907 -1906
[assign] #373 clause 1909 1908
[assign] (not #377) clause -1912 -1909 1889 -1901 -1904 -1913
[assign] #2851 clause 1910 1912
[assign] (not #11143) clause -1911 1912
[eq-expl] #15169 cg (#15115 #14834) ; #15036
[eq-expl] #15170 cg (#3840 #3840) (#7229 #7229) (#15169 #15036) ; #15037
[eq-expl] #15037 lit #15164 ; #15163
[eq-expl] #15163 cg (#15036 #3162) ; #15140
[new-match] 2163120096 #2782 #2779 #15170 #244 #120 #203 #120 ; #15171 (#7229 #7229) #15038 (#15037 #15144) #15045 (#15038 #15081)
[new-match] 3893095121 #2770 #2767 #15170 #244 #120 #203 #120 ; #15171 (#7229 #7229) #15038 (#15037 #15144) #15039 (#15038 #15081)
[new-match] 1289181441 #2747 #2743 #15170 #244 #120 #203 #120 ; #15171 (#7229 #7229)
[eq-expl] #11141 root
[eq-expl] #11142 root
[new-match] 700581598 #6821 #767 #2 #11142 #11141 ; #11143
[eq-expl] #3740 lit #3733 ; #3732
[eq-expl] #3732 root
[new-match] 2104200956 #169 #168 #3740 ; #11142
[eq-expl] #11137 root
[new-match] 1187533902 #169 #168 #11137 ; #11141
[eq-expl] #2908 cg (#2975 #3473) ; #14772
[eq-expl] #14772 lit #14766 ; #14765
[eq-expl] #14792 cg (#3535 #3923) ; #3764
[eq-expl] #14765 cg (#14792 #3764) (#289 #289) ; #3594
[eq-expl] #14200 root
[new-match] 1875605526 #565 #557 #2908 #3865 ; #11137
[mk-app] #15173 has_type #15144 #7229
[mk-app] #15166 not #15173
[mk-app] #15160 %Poly%tuple%2. #15144
[mk-app] #15156 tuple%2./tuple%2/0 #15160
[mk-app] #15152 has_type #15156 #203
[mk-app] #15151 or #15166 #15152
[inst-discovered] theory-solving 0x0 datatype# ; #15144
[mk-app] #15141 = #15144 #15140
[instance] 0x0 #15141
[attach-enode] #15141 0
[end-of-instance]
[mk-app] #15141 has_type #15140 #7229
[mk-app] #15138 not #15141
[mk-app] #15136 %Poly%tuple%2. #15140
[mk-app] #15137 tuple%2./tuple%2/0 #15136
[mk-app] #15135 has_type #15137 #203
[mk-app] #15134 or #15138 #15135
[mk-app] #15174 or #14828 #15138 #15135
[instance] 3893095121 ; 3
[attach-enode] #15141 3
[attach-enode] #15136 3
[mk-app] #15175 tuple%2./tuple%2/?0 #15136
[mk-app] #15176 tuple%2./tuple%2/?1 #15136
[mk-app] #15177 tuple%2./tuple%2 #15175 #15176
[attach-enode] #15175 3
[attach-enode] #15176 3
[attach-enode] #15177 3
[mk-app] #15178 tuple%2./tuple%2/?0 #15177
[mk-app] #15179 = #15175 #15178
[new-match] 0 datatype#220 datatype#217 #15175 #15176 ; #15177
[instance] 0 #15179
[attach-enode] #15178 3
[end-of-instance]
[mk-app] #15179 tuple%2./tuple%2/?1 #15177
[mk-app] #15180 = #15176 #15179
[new-match] 0 datatype#223 datatype#217 #15175 #15176 ; #15177
[instance] 0 #15180
[attach-enode] #15179 3
[end-of-instance]
[attach-enode] #15137 3
[attach-enode] #15135 3
[end-of-instance]
[mk-app] #15134 Poly%tuple%2. #15160
[mk-app] #15180 = #15144 #15134
[mk-app] #15181 or #15166 #15180
[mk-app] #15182 Poly%tuple%2. #15136
[mk-app] #15183 = #15140 #15182
[mk-app] #15184 or #15138 #15183
[mk-app] #15185 or #14182 #15138 #15183
[instance] 1289181441 ; 3
[attach-enode] #15182 3
[attach-enode] #15183 3
[end-of-instance]
[mk-app] #15184 height #11141
[mk-app] #15186 height #11142
[mk-app] #15187 height_lt #15184 #15186
[mk-app] #15188 = #15184 #15186
[mk-app] #15189 not #15188
[mk-app] #15190 not #2
[mk-app] #15191 or #15189 #15190
[mk-app] #15192 not #15191
[mk-app] #15193 or #15187 #15192
[mk-app] #15194 = #11143 #15193
[inst-discovered] theory-solving 0x0 basic# ; #15190
[mk-app] #15195 = #15190 #1
[instance] 0x0 #15195
[attach-enode] #15195 0
[end-of-instance]
[mk-app] #15195 or #15189 #1
[inst-discovered] theory-solving 0x0 basic# ; #15195
[mk-app] #15196 = #15195 #1
[instance] 0x0 #15196
[attach-enode] #15196 0
[end-of-instance]
[mk-app] #15195 not #1
[inst-discovered] theory-solving 0x0 basic# ; #15195
[mk-app] #15196 = #15195 #2
[instance] 0x0 #15196
[attach-enode] #15196 0
[end-of-instance]
[mk-app] #15195 or #15187 #2
[inst-discovered] theory-solving 0x0 basic# ; #15195
[mk-app] #15196 = #15195 #15187
[instance] 0x0 #15196
[attach-enode] #15196 0
[end-of-instance]
[mk-app] #15195 = #11143 #15187
[mk-app] #15196 not #6821
[mk-app] #15197 or #15196 #15195
[instance] 700581598 ; 1
[attach-enode] #15184 1
[attach-enode] #15186 1
[attach-enode] #15187 1
[assign] #15195 justification -1: 97
[end-of-instance]
[mk-app] #15198 I #3732
[mk-app] #15199 %I #15198
[mk-app] #15200 = #3732 #15199
[mk-app] #15201 or #14221 #15200
[instance] 2104200956 ; 1
[attach-enode] #15198 1
[attach-enode] #15199 1
[attach-enode] #15200 1
[assign] #15200 justification -1: 25
[end-of-instance]
[mk-app] #15202 %I #11141
[mk-app] #15203 = #11137 #15202
[mk-app] #15204 or #14221 #15203
[instance] 1187533902 ; 1
[attach-enode] #15202 1
[attach-enode] #15203 1
[assign] #15203 justification -1: 25
[end-of-instance]
[mk-app] #15205 Sub #3865 #14200
[mk-app] #15206 + #14200 #13456 #15205
[mk-app] #15207 = #15206 #334
[mk-app] #15208 + #13456 #14200 #15205
[inst-discovered] theory-solving 0x0 arith# ; #15206
[mk-app] #15209 = #15206 #15208
[instance] 0x0 #15209
[attach-enode] #15209 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[attach-meaning] #363 arith (- 1)
[mk-app] #15209 * #363 #15205
[mk-app] #15210 + #3865 #14528 #15209
[mk-app] #15211 = #15210 #334
[mk-app] #15212 = #15208 #334
[inst-discovered] theory-solving 0x0 arith# ; #15212
[mk-app] #15213 = #15212 #15211
[instance] 0x0 #15213
[attach-enode] #15213 0
[end-of-instance]
[mk-app] #15208 or #13461 #15211
[instance] 1875605526 ; 1
[attach-enode] #15205 1
[attach-enode] #15209 1
[attach-enode] #15210 1
[attach-enode] #15211 1
[mk-app] #15212 <= #15210 #334
[mk-app] #15213 >= #15210 #334
[assign] #15211 justification -1: 77
[end-of-instance]
[assign] (not #15187) clause -2552 -2553
[assign] #15212 clause 2557 -2556
[assign] #15213 clause 2558 -2556
[assign] #15141 justification -1: 2548 2546 2530 2529
[eq-expl] #11137 lit #15203 ; #15202
[eq-expl] #15202 root
[eq-expl] #15184 root
[eq-expl] #15186 root
[new-match] 2955741679 #1243 #776 #3740 #11137 ; #15187 (#15184 #15184) (#15186 #15186) (#11141 #11141) (#11142 #11142)
[new-match] 775061744 #11129 #792 #15186 #15184 ; #15187
[new-match] 2468786380 #2782 #2779 #15037 #244 #120 #203 #120 ; #15045 (#15038 #15038) #15171 (#15037 #15144) (#15170 #15144) (#7229 #7229)
[new-match] 2822858100 #2770 #2767 #15037 #244 #120 #203 #120 ; #15039 (#15038 #15038) #15171 (#15037 #15144) (#15170 #15144) (#7229 #7229)
[mk-app] #15214 >= #15202 #334
[mk-app] #15215 not #15214
[mk-app] #15216 * #363 #15202
[mk-app] #15217 + #3732 #15216
[mk-app] #15218 <= #15217 #334
[mk-app] #15219 or #15215 #15218
[mk-app] #15220 I #15202
[mk-app] #15221 height #15220
[mk-app] #15222 height #15198
[mk-app] #15223 height_lt #15221 #15222
[mk-app] #15224 = #15219 #15223
[mk-app] #15225 not #15224
[mk-app] #15226 not #15219
[inst-discovered] theory-solving 0x0 basic# ; #15225
[mk-app] #15226 = #15225 #15225
[instance] 0x0 #15226
[attach-enode] #15226 0
[end-of-instance]
[mk-app] #15226 not #1243
[mk-app] #15227 or #15226 #15225
[instance] 2955741679 ; 2
[attach-enode] #15216 2
[attach-enode] #15217 2
[attach-enode] #15220 2
[attach-enode] #15221 2
[attach-enode] #15222 2
[attach-enode] #15223 2
[assign] (not #15224) justification -1: 98
[end-of-instance]
[mk-app] #15228 partial-order #15184 #15186
[mk-app] #15229 not #15228
[mk-app] #15230 or #15229 #15188
[mk-app] #15231 = #15230 #15187
[mk-app] #15232 not #15231
[mk-app] #15233 not #15230
[inst-discovered] theory-solving 0x0 basic# ; #15232
[mk-app] #15233 = #15232 #15232
[instance] 0x0 #15233
[attach-enode] #15233 0
[end-of-instance]
[mk-app] #15233 not #11129
[mk-app] #15234 or #15233 #15232
[instance] 775061744 ; 2
[attach-enode] #15188 2
[assign] (not #15231) justification -1: 99
[end-of-instance]
[mk-app] #15235 or #15138 #15135
[instance] 2822858100 ; 3
[assign] #15135 justification -1: 669 2549
[end-of-instance]
[assign] #15183 clause 2551 -2549
[assign] #15230 clause 2566 2567
[assign] (not #15223) justification -1: -2552 1847 2555
[mk-app] #15235 = #15202 #15205
[attach-meaning] #363 arith (- 1)
[mk-app] #15236 + #15202 #15209
[mk-app] #15237 <= #15236 #334
[mk-app] #15238 >= #15236 #334
[assign] #15235 justification -1: 2555 2502 2254 2515 1872 2516 1874
[attach-enode] #15235 0
[attach-enode] #15236 0
[assign] #15237 justification -1: 2568
[assign] #15238 justification -1: 2568
[eq-expl] #15136 cg (#15140 #15037) ; #15038
[eq-expl] #15137 cg (#15136 #15038) ; #15039
[eq-expl] #15039 cg (#15038 #15081) ; #15157
[eq-expl] #15157 lit #15147 ; #15079
[eq-expl] #15079 ax ; #15082
[eq-expl] #15082 root
[new-match] 101168996 #482 #206 #15137 ; #15135 (#203 #203)
[new-match] 762031661 #210 #206 #15137 ; #15135 (#203 #203)
[new-match] 537208647 #2736 #2735 #15136 ; #15182
[eq-expl] #15080 lit #15145 ; #15153
[eq-expl] #15153 cg (#15081 #15038) ; #15045
[eq-expl] #15045 lit #15047 ; #15046
[eq-expl] #14820 cg (#3535 #3923) ; #3911
[eq-expl] #14777 cg (#14820 #3902) ; #3903
[eq-expl] #15041 cg (#14792 #13814) ; #13823
[eq-expl] #15046 cg (#120 #120) (#244 #244) (#14777 #13816) (#15041 #13823) ; #13827
[eq-expl] #15182 lit #15183 ; #15140
[new-match] 3892390515 #11641 #2754 #15080 #15079 #244 #120 #203 #120 ; #15171 (#7229 #7229) (#15170 #15182) (#15136 #15081)
[mk-app] #15239 has_type #15082 #203
[mk-app] #15240 not #15239
[mk-app] #15241 %I #15082
[mk-app] #15242 I #15241
[mk-app] #15243 = #15082 #15242
[mk-app] #15244 or #15240 #15243
[mk-app] #15245 has_type #15079 #203
[mk-app] #15246 not #15245
[mk-app] #15247 %I #15079
[mk-app] #15248 I #15247
[mk-app] #15249 = #15079 #15248
[mk-app] #15250 or #15246 #15249
[mk-app] #15251 or #14941 #15246 #15249
[instance] 762031661 ; 4
[attach-enode] #15245 4
[attach-enode] #15247 4
[attach-enode] #15248 4
[attach-enode] #15249 4
[end-of-instance]
[assign] #15219 clause 2561 2562 2563
[assign] #15245 justification -1: 2550 2544 2546 2530
[assign] #15214 clause 2559 2501 -2255 -2518 -2522 -2557 -2172 -2570
[assign] (not #15218) clause -2560 -2558 -2191 -2175 -1971 -2569
[assign] #15249 clause 2572 -2571
[resolve-process] true
[resolve-lit] 0 #15218
[resolve-lit] 0 (not #15214)
[resolve-lit] 0 (not #15219)
[resolve-process] #15218
[resolve-lit] 0 (not #15213)
[resolve-lit] 0 (not #15237)
[resolve-process] (not #15214)
[resolve-lit] 0 #15069
[resolve-lit] 0 (not #15089)
[resolve-lit] 0 (not #15094)
[resolve-lit] 0 (not #15212)
[resolve-lit] 0 (not #15238)
[resolve-process] (not #15219)
[resolve-lit] 0 #15223
[resolve-lit] 0 #15224
[resolve-process] (not #15238)
[resolve-lit] 0 (not #15235)
[resolve-process] (not #15237)
[resolve-process] (not #15235)
[resolve-lit] 0 (not #15203)
[resolve-lit] 0 (not #14766)
[resolve-lit] 0 (not #14246)
[resolve-lit] 0 (not #3528)
[resolve-lit] 0 (not #14252)
[resolve-lit] 0 (not #3466)
[resolve-process] #15223
[resolve-lit] 0 #15187
[resolve-process] #15224
[resolve-process] (not #15213)
[resolve-lit] 0 (not #15211)
[resolve-process] (not #15212)
[resolve-process] #15187
[resolve-lit] 0 (not #15195)
[resolve-lit] 0 #11143
[resolve-process] (not #15211)
[resolve-process] (not #15203)
[resolve-process] (not #15195)
[resolve-process] #11143
[resolve-lit] 0 #377
[resolve-process] #377
[resolve-lit] 0 (not #373)
[resolve-lit] 0 #3277
[resolve-lit] 0 (not #447)
[resolve-lit] 0 (not #430)
[resolve-process] (not #373)
[resolve-lit] 0 #453
[resolve-process] #453
[resolve-lit] 0 (not #408)
[resolve-lit] 0 (not #406)
[resolve-process] (not #408)
[resolve-lit] 0 #13257
[resolve-lit] 0 (not #15139)
[resolve-process] (not #406)
[resolve-lit] 0 (not #15150)
[resolve-process] (not #15150)
[resolve-lit] 0 (not #15143)
[resolve-process] (not #15139)
[resolve-process] (not #15143)
[resolve-process] (not #14766)
[resolve-lit] 0 #15049
[resolve-process] #15049
[resolve-lit] 0 (not #15066)
[resolve-process] #15069
[resolve-lit] 0 (not #15090)
[resolve-lit] 0 (not #15093)
[resolve-process] (not #430)
[resolve-lit] 0 (not #427)
[resolve-process] (not #447)
[resolve-lit] 0 (not #2949)
[resolve-process] (not #15094)
[resolve-lit] 0 (not #15091)
[resolve-process] (not #15093)
[resolve-process] (not #15091)
[resolve-process] (not #15090)
[resolve-lit] 0 (not #15087)
[resolve-process] (not #15089)
[resolve-process] (not #15087)
[resolve-process] (not #427)
[resolve-lit] 0 (not #14798)
[resolve-process] (not #2949)
[resolve-lit] 0 (not #14830)
[resolve-process] (not #15066)
[resolve-lit] 0 #15074
[resolve-process] (not #14798)
[resolve-process] (not #14830)
[resolve-process] #15074
[resolve-lit] 0 (not #15063)
[resolve-lit] 0 #15075
[resolve-process] (not #14252)
[resolve-lit] 0 (not #14234)
[resolve-process] (not #14246)
[resolve-lit] 0 (not #14230)
[resolve-process] (not #15063)
[resolve-lit] 0 (not #11007)
[resolve-lit] 0 (not #3521)
[resolve-process] #15075
[resolve-process] (not #14234)
[resolve-lit] 0 (not #3543)
[resolve-process] (not #14230)
[resolve-process] #3277
[resolve-lit] 0 #3450
[resolve-lit] 0 (not #710)
[resolve-process] #3450
[resolve-lit] 0 #1047
[resolve-process] (not #11007)
[resolve-process] #1047
[resolve-lit] 0 #726
[resolve-process] (not #3466)
[resolve-process] (not #3521)
[resolve-process] (not #3528)
[resolve-process] (not #3543)
[resolve-process] #726
[resolve-lit] 0 (not #719)
[resolve-lit] 0 (not #696)
[resolve-process] (not #719)
[resolve-lit] 0 #1782
[resolve-process] #1782
[resolve-lit] 0 (not #14118)
[resolve-lit] 0 (not #14889)
[resolve-process] (not #14889)
[resolve-lit] 0 (not #14911)
[resolve-lit] 0 #14804
[resolve-process] (not #14911)
[resolve-lit] 0 (not #14916)
[resolve-lit] 0 #14803
[resolve-process] (not #14916)
[resolve-lit] 0 #14802
[resolve-lit] 0 (not #14949)
[resolve-process] (not #14949)
[resolve-lit] 0 (not #14811)
[resolve-lit] 0 (not #14950)
[resolve-process] #14804
[resolve-lit] 1 #13799
[resolve-lit] 1 (not #3578)
[resolve-process] #14802
[resolve-lit] 1 #14021
[resolve-process] #14803
[resolve-process] (not #14811)
[resolve-lit] 0 (not #14686)
[resolve-lit] 0 (not #13828)
[resolve-process] (not #14118)
[resolve-lit] 0 #14782
[resolve-process] #14782
[resolve-lit] 0 (not #14121)
[resolve-lit] 0 #14783
[resolve-process] (not #14950)
[resolve-process] (not #14121)
[resolve-lit] 0 (not #3564)
[resolve-process] (not #14686)
[resolve-lit] 0 #14695
[resolve-process] #14695
[resolve-lit] 0 #14703
[resolve-process] #14783
[resolve-process] #14703
[resolve-lit] 0 #3364
[resolve-lit] 1 (not #13247)
[resolve-lit] 1 (not #14700)
[resolve-lit] 1 (not #14674)
[resolve-lit] 1 (not #13736)
[resolve-process] (not #710)
[resolve-lit] 0 #636
[resolve-process] (not #696)
[resolve-process] (not #3564)
[resolve-process] #636
[resolve-lit] 0 (not #1117)
[resolve-lit] 1 (not #639)
[resolve-process] (not #1117)
[resolve-lit] 0 (not #3481)
[resolve-process] (not #13828)
[resolve-lit] 0 #13830
[resolve-process] (not #3481)
[resolve-lit] 0 (not #14087)
[resolve-lit] 1 (not #14084)
[resolve-lit] 1 (not #3586)
[resolve-process] #13830
[resolve-lit] 0 #13820
[resolve-process] (not #14087)
[resolve-process] #13820
[resolve-process] #13257
[conflict] #3364 (not #3578) (not #13247) (not #13736) (not #639) (not #14084) (not #3586)
[pop] 1 10
[attach-enode] #14116 0
[attach-enode] #14117 0
[attach-enode] #14801 0
[attach-enode] #14803 0
[attach-enode] #14805 0
[attach-enode] #14494 0
[attach-enode] #14496 0
[attach-enode] #14820 0
[attach-enode] #14777 0
[attach-enode] #14778 0
[attach-enode] #14792 0
[attach-enode] #15067 0
[attach-enode] #15068 0
[attach-enode] #15088 0
[attach-enode] #14774 0
[attach-enode] #15092 0
[attach-enode] #14025 0
[attach-enode] #15148 0
[attach-enode] #15143 0
[attach-meaning] #363 arith (- 1)
[attach-enode] #15205 0
[attach-enode] #15209 0
[attach-enode] #15210 0
[attach-enode] #15202 0
[attach-enode] #15236 0
[attach-enode] #15216 0
[attach-enode] #15217 0
[assign] (not #14805) axiom
[assign] #3364 clause 1885 -1863 -1838 -2387 -1892 -2174 -1861
[assign] #13257 clause 1886 -1885
[assign] #719 clause 1887 -1885
[assign] #14703 justification -1: 1885 1839 1838 2398 2390 2387 2265 2266 2267 1961 1965 2253 2267
[assign] (not #14803) justification -1: -1855 1856 2251 2266
[assign] #14464 clause 2188 -1886 -2192 -2360
[assign] #14710 clause 2402 -2360 -2192 -2400 -1886
[eq-expl] #14777 root
[new-match] 830583092 #3884 #3879 #14777 #244 #120 ; #14778
[eq-expl] #14820 root
[new-match] 3290409242 #1462 #1461 #14820 ; #14777
[eq-expl] #3522 root
[new-match] 1829245385 #1622 #1621 #3522 ; #2975
[new-match] 579950756 #565 #557 #14200 #3865 ; #15205
[eq-expl] #2908 root
[new-match] 1875605526 #565 #557 #2908 #3865 ; #11137
[eq-expl] #11137 root
[new-match] 1187533902 #169 #168 #11137 ; #11141
[mk-app] #14780 has_type #14777 #1463
[mk-app] #14781 not #14780
[mk-app] #14782 >= #14778 #334
[mk-app] #14783 or #14781 #14782
[mk-app] #14824 or #13454 #14781 #14782
[instance] 830583092 ; 2
[attach-enode] #14780 2
[end-of-instance]
[mk-app] #14855 %Poly%vstd!seq.Seq<char.>. #14777
[mk-app] #14856 = #14820 #14855
[mk-app] #14854 or #13445 #14856
[instance] 3290409242 ; 2
[attach-enode] #14855 2
[attach-enode] #14856 2
[assign] #14856 justification -1: 476
[end-of-instance]
[mk-app] #14860 %Poly%u_tokenizer!lex.CIter. #2975
[mk-app] #14870 = #3522 #14860
[mk-app] #14911 or #13437 #14870
[instance] 1829245385 ; 1
[attach-enode] #14860 1
[attach-enode] #14870 1
[assign] #14870 justification -1: 500
[end-of-instance]
[mk-app] #14916 + #13456 #14200 #15205
[inst-discovered] theory-solving 0x0 arith# ; #15206
[mk-app] #14949 = #15206 #14916
[instance] 0x0 #14949
[attach-enode] #14949 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[attach-meaning] #363 arith (- 1)
[mk-app] #14949 = #15210 #334
[mk-app] #14950 = #14916 #334
[inst-discovered] theory-solving 0x0 arith# ; #14950
[mk-app] #15009 = #14950 #14949
[instance] 0x0 #15009
[attach-enode] #15009 0
[end-of-instance]
[mk-app] #14916 or #13461 #14949
[instance] 579950756 ; 3
[attach-enode] #14949 3
[assign] #14949 justification -1: 77
[end-of-instance]
[mk-app] #14950 + #2908 #13456 #11137
[mk-app] #15009 = #14950 #334
[mk-app] #15011 or #13461 #15009
[instance] 1875605526 ; 1
[attach-enode] #14950 1
[attach-enode] #15009 1
[mk-app] #15012 <= #14950 #334
[mk-app] #15035 >= #14950 #334
[assign] #15009 justification -1: 77
[end-of-instance]
[mk-app] #15020 or #14221 #15203
[instance] 1187533902 ; 1
[attach-enode] #15203 1
[attach-meaning] #363 arith (- 1)
[mk-app] #14819 + #11137 #15216
[mk-app] #14942 <= #14819 #334
[mk-app] #14938 >= #14819 #334
[attach-enode] #14819 1
[assign] #15203 justification -1: 25
[end-of-instance]
[assign] #15212 clause 2432 -2442
[assign] #15213 clause 2435 -2442
[assign] #15012 clause 2444 -2443
[assign] #15035 clause 2445 -2443
[assign] #14942 clause 2447 -2446
[assign] #14938 clause 2448 -2446
[push] 9
[assign] (not #13228) decision axiom
[assign] (not #739) justification -1: -1813
[assign] (not #13264) justification -1: -1813 1953
[assign] (not #13268) justification -1: -1813 1953
[assign] (not #13397) justification -1: -1813 1953
[assign] (not #13401) justification -1: -1813 1953
[push] 10
[assign] (not #432) decision axiom
[assign] (not #155) justification -1: -1816
[assign] (not #13277) justification -1: -1816 1956
[assign] (not #13281) justification -1: -1816 1956
[assign] (not #13408) justification -1: -1816 1956
[assign] (not #13412) justification -1: -1816 1956
[push] 11
[assign] (not #13221) decision axiom
[assign] (not #13239) justification -1: -1819
[assign] (not #13290) justification -1: -1819 1959
[assign] (not #13294) justification -1: -1819 1959
[assign] (not #13419) justification -1: -1819 1959
[assign] (not #13423) justification -1: -1819 1959
[decide-and-or] #13227 #3277
[push] 12
[assign] #3277 decision axiom
[push] 13
[assign] (not #3557) decision axiom
[assign] (not #13786) justification -1: -1870 1852
[assign] (not #14494) justification -1: -1870 2329 1852
[decide-and-or] #639 #684
[push] 14
[assign] (not #1117) decision axiom
[assign] #3579 clause 1864 1866
[assign] (not #3481) clause -1865 1866
[assign] (not #14087) clause -2173 1865 -2174 -1861 -1863
[assign] #13785 clause 2297 2173 -2191 -2170 -2321
[assign] #14456 clause 2187 2173 -2172 -2170 -2192
[assign] #14504 clause 2206 2173 -2191 -2170
[assign] #13820 clause 2159 2173 -2172 -2170 -2240 -2244
[assign] (not #14391) clause -2207 2173 -2170 -2273 -2291
[assign] #14698 clause 2393 2173 -2172 -2192 -2170 -2400
[assign] (not #14853) clause -2408 2173 -2191 -2273 -2291 -2170 -2415
[new-match] 136049301 #13073 #10584 #3587 #3593 #3902 ; #3481
[mk-app] #14894 req%u_tokenizer!lex.lemma_scan. #13443 #14200 #8401
[mk-app] #14887 + #14200 #14046
[mk-app] #14861 <= #14887 #334
[mk-app] #14862 not #14861
[mk-app] #15066 or #14514 #14862
[mk-app] #15071 not #15066
[mk-app] #15072 or #10589 #15071
[mk-app] #15070 = #14894 #15072
[mk-app] #15073 + #14046 #14200
[inst-discovered] theory-solving 0x0 arith# ; #14887
[mk-app] #15074 = #14887 #15073
[instance] 0x0 #15074
[attach-enode] #15074 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #15074 + #14045 #14528
[mk-app] #15075 >= #15074 #334
[mk-app] #15087 <= #15073 #334
[inst-discovered] theory-solving 0x0 arith# ; #15087
[mk-app] #15091 = #15087 #15075
[instance] 0x0 #15091
[attach-enode] #15091 0
[end-of-instance]
[mk-app] #15087 not #15075
[mk-app] #15091 or #14514 #15087
[mk-app] #15121 not #15091
[mk-app] #15122 or #10589 #15121
[mk-app] #15123 = #14894 #15122
[mk-app] #15124 not #13073
[mk-app] #15125 or #15124 #15123
[instance] 136049301 ; 1
[attach-enode] #14894 1
[attach-enode] #15074 1
[assign] #15123 justification -1: 1737
[end-of-instance]
[assign] #14571 clause 2299 -2297
[assign] #13835 clause 2275 -2159 -2276
[assign] #14695 clause 2395 -2393
[assign] #14120 clause 2300 -2299
[mk-app] #15126 = #3719 #1714
[mk-app] #15127 => #13835 #15126
[inst-discovered] theory-solving 0x0 datatype# ; #3719
[instance] 0 #15127
[end-of-instance]
[assign] (not #14894) justification -1: -1865 1863 1861 2254 1965
[mk-app] #15126 = #14127 #14653
[attach-meaning] #363 arith (- 1)
[mk-app] #15127 + #14127 #14029
[mk-app] #15128 <= #15127 #334
[mk-app] #15129 >= #15127 #334
[assign] #15126 justification -1: 2248 2300 2302 2266 2268 1965
[attach-enode] #15126 0
[attach-enode] #15127 0
[assign] #15128 justification -1: 2455
[assign] #15129 justification -1: 2455
[resolve-process] true
[resolve-lit] 0 (not #13835)
[conflict] (not #13835)
[pop] 1 15
[assign] (not #13835) axiom
[assign] (not #13820) clause -2159 2275 -2276
[assign] (not #13830) clause -2164 2159 -2165
[assign] #14087 clause 2173 2159 -2172 -2170 -2240 -2244
[assign] #13825 clause 2162 2164
[assign] #13828 clause 2163 2164
[assign] #3481 clause 1865 -2173 -2174 -1861 -1863
[assign] #1117 clause 1866 -1865
[assign] (not #636) clause -1891 -1866 -1892
[assign] #3570 clause 1867 1891
[assign] #3564 clause 1868 1891
[assign] #696 clause 1888 1891
[assign] #710 clause 1890 1891
[assign] (not #726) clause -1882 -1888 -1887
[assign] #3450 clause 1879 -1890 -1889
[assign] #3556 clause 1869 1882
[assign] #3543 clause 1871 1882
[assign] #3528 clause 1872 1882
[assign] #3521 clause 1873 1882
[assign] #3466 clause 1874 1882
[assign] #737 clause 1881 1882
[assign] (not #1047) clause -1880 1882
[resolve-process] true
[resolve-lit] 0 #1047
[resolve-lit] 0 (not #3450)
[resolve-process] #1047
[resolve-lit] 0 #726
[resolve-process] (not #3450)
[resolve-lit] 0 (not #710)
[resolve-lit] 1 (not #3277)
[resolve-process] #726
[resolve-lit] 0 (not #696)
[resolve-lit] 5 (not #719)
[resolve-process] (not #710)
[resolve-lit] 0 #636
[resolve-process] (not #696)
[conflict] #636 (not #3277) (not #719)
[pop] 1 14
[assign] (not #13835) axiom
[assign] #636 clause 1891 -1889 -1887
[assign] (not #13820) clause -2159 2275 -2276
[assign] (not #1117) clause -1866 -1891 -1892
[assign] (not #13830) clause -2164 2159 -2165
[assign] #14087 clause 2173 2159 -2172 -2170 -2240 -2244
[assign] #3579 clause 1864 1866
[assign] (not #3481) clause -1865 1866
[assign] #13825 clause 2162 2164
[assign] #13828 clause 2163 2164
[resolve-process] true
[resolve-lit] 0 #3481
[resolve-lit] 0 (not #14087)
[resolve-lit] 4 (not #14084)
[resolve-lit] 4 (not #3586)
[resolve-lit] 4 (not #3578)
[resolve-process] #3481
[resolve-lit] 0 #1117
[resolve-process] (not #14087)
[resolve-lit] 0 #13820
[resolve-process] #1117
[resolve-lit] 0 (not #636)
[resolve-lit] 4 (not #639)
[resolve-process] #13820
[resolve-lit] 0 #13835
[resolve-process] (not #636)
[resolve-lit] 0 (not #3277)
[resolve-lit] 4 (not #719)
[resolve-process] #13835
[conflict] (not #3277) (not #14084) (not #3586) (not #3578) (not #639) (not #719)
[pop] 4 13
[assign] (not #13835) axiom
[assign] (not #3277) clause -1889 -2174 -1861 -1863 -1892 -1887
[assign] (not #13820) clause -2159 2275 -2276
[assign] #710 clause 1890 1889
[assign] (not #13830) clause -2164 2159 -2165
[assign] #14087 clause 2173 2159 -2172 -2170 -2240 -2244
[assign] #13825 clause 2162 2164
[assign] #13828 clause 2163 2164
[assign] #3481 clause 1865 -2173 -2174 -1861 -1863
[assign] #1117 clause 1866 -1865
[assign] (not #636) clause -1891 -1866 -1892
[assign] #3570 clause 1867 1891
[assign] #3564 clause 1868 1891
[assign] #696 clause 1888 1891
[assign] (not #726) clause -1882 -1888 -1887
[assign] #3556 clause 1869 1882
[assign] (not #3557) clause -1870 1882
[assign] #3543 clause 1871 1882
[assign] #3528 clause 1872 1882
[assign] #3521 clause 1873 1882
[assign] #3466 clause 1874 1882
[assign] #737 clause 1881 1882
[assign] (not #1047) clause -1880 1882
[assign] (not #1782) clause -1883 -1869 1870
[assign] #11007 clause 1878 1880
[assign] (not #3450) clause -1879 1880
[assign] (not #13786) justification -1: -1870 1852
[assign] (not #14494) justification -1: -1870 2329 1852
[assign] (not #14456) clause -2187 -2173 -2177 -2175 -2242
[assign] (not #14698) clause -2393 -2173 -2177 -2242 -2175 -2401
[eq-expl] #3563 root
[new-match] 75245469 #12552 #7388 #3563 #3571 #244 #120 ; #3564
[eq-expl] #14200 root
[new-match] 1587267544 #13089 #10618 #3587 #3593 #3902 ; #3570
[new-match] 1755287860 #11858 #3908 #13823 #13816 #244 #120 ; #13827
[new-match] 472461204 #6732 #6731 #13823 #13816 ; #13824
[new-match] 1095615642 #2763 #2762 #3697 ; #13821
[eq-expl] #13860 root
[eq-expl] #3719 unknown ; #13860
[new-match] 3572552747 #2770 #2767 #3696 #244 #120 #203 #120 ; #13821 (#3697 #3697) #14027 (#3696 #13861) (#3696 #13861) (#7229 #7229)
[new-match] 628233173 #55 #51 #1623 #120 #3542 ; #3543 (#11178 #11178) #3535 (#3542 #3542)
[new-match] 3056961563 #62 #59 #1623 #120 #3542 ; #3543 (#11178 #11178) #3473 (#3542 #3542)
[eq-expl] #3529 lit #3521 ; #3542
[eq-expl] #3162 root
[new-match] 3811576095 #12508 #7263 #3162 #3529 ; #11007
[mk-app] #15074 not #14118
[inst-discovered] theory-solving 0x0 basic# ; #15074
[mk-app] #15075 = #15074 #15074
[instance] 0x0 #15075
[attach-enode] #15075 0
[end-of-instance]
[mk-app] #15075 or #14107 #15074
[mk-app] #15087 = #15075 #14121
[mk-app] #15091 not #15075
[mk-app] #15121 not #15087
[inst-discovered] theory-solving 0x0 basic# ; #15121
[mk-app] #15091 = #15121 #15121
[instance] 0x0 #15091
[attach-enode] #15091 0
[end-of-instance]
[mk-app] #15091 not #12552
[mk-app] #15122 or #15091 #15121
[instance] 75245469 ; 1
[attach-enode] #14106 1
[attach-enode] #14121 1
[assign] (not #15087) justification -1: 1248
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14758
[mk-app] #15123 = #14758 #14758
[instance] 0x0 #15123
[attach-enode] #15123 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14740
[mk-app] #15123 = #14740 #14740
[instance] 0x0 #15123
[attach-enode] #15123 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14748
[mk-app] #15123 = #14748 #14748
[instance] 0x0 #15123
[attach-enode] #15123 0
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #14763
[mk-app] #15123 = #14763 #14763
[instance] 0x0 #15123
[attach-enode] #15123 0
[end-of-instance]
[mk-app] #15123 not #13089
[mk-app] #15126 or #15123 #14764
[instance] 1587267544 ; 1
[attach-enode] #14747 1
[attach-enode] #14724 1
[attach-enode] #14719 1
[attach-enode] #14720 1
[attach-enode] #14721 1
[attach-enode] #14728 1
[attach-enode] #14738 1
[attach-enode] #14731 1
[attach-enode] #14732 1
[attach-enode] #14735 1
[attach-enode] #14733 1
[attach-enode] #14729 1
[attach-enode] #14730 1
[assign] (not #14763) justification -1: 1738
[end-of-instance]
[mk-app] #15127 not #6732
[mk-app] #15128 or #15127 #14770
[instance] 472461204 ; 2
[attach-enode] #14767 2
[attach-enode] #14768 2
[attach-enode] #14769 2
[attach-enode] #14770 2
[assign] #14770 justification -1: 1180
[end-of-instance]
[mk-app] #15129 = #13884 #13250
[mk-app] #15124 not #2763
[mk-app] #15125 or #15124 #15129
[instance] 1095615642 ; 2
[attach-enode] #13884 2
[attach-enode] #15129 2
[assign] #15129 justification -1: 668
[end-of-instance]
[mk-app] #15130 or #13927 #13942
[mk-app] #15131 not #2770
[mk-app] #15132 or #15131 #13927 #13942
[instance] 3572552747 ; 3
[attach-enode] #13926 3
[attach-enode] #13928 3
[mk-app] #15133 tuple%2./tuple%2/?0 #13928
[mk-app] #15145 tuple%2./tuple%2/?1 #13928
[mk-app] #15147 tuple%2./tuple%2 #15133 #15145
[attach-enode] #15133 3
[attach-enode] #15145 3
[attach-enode] #15147 3
[mk-app] #15175 tuple%2./tuple%2/?0 #15147
[mk-app] #15176 = #15133 #15175
[new-match] 0 datatype#220 datatype#217 #15133 #15145 ; #15147
[instance] 0 #15176
[attach-enode] #15175 3
[end-of-instance]
[mk-app] #15176 tuple%2./tuple%2/?1 #15147
[mk-app] #15177 = #15145 #15176
[new-match] 0 datatype#223 datatype#217 #15133 #15145 ; #15147
[instance] 0 #15177
[attach-enode] #15176 3
[end-of-instance]
[attach-enode] #13941 3
[attach-enode] #13942 3
[end-of-instance]
[mk-app] #15130 not #55
[mk-app] #15177 or #15130 #746 #14230
[instance] 628233173 ; 1
[attach-enode] #14230 1
[assign] #14230 justification -1: 5 1871
[end-of-instance]
[mk-app] #15178 not #62
[mk-app] #15179 or #15178 #746 #14234
[instance] 3056961563 ; 1
[attach-enode] #14234 1
[assign] #14234 justification -1: 6 1871
[end-of-instance]
[inst-discovered] theory-solving 0x0 basic# ; #15049
[mk-app] #15195 = #15049 #15049
[instance] 0x0 #15195
[attach-enode] #15195 0
[end-of-instance]
[mk-app] #15195 or #15069 #15050
[inst-discovered] theory-solving 0x0 basic# ; #15195
[mk-app] #15211 = #15195 #15195
[instance] 0x0 #15211
[attach-enode] #15211 0
[end-of-instance]
[mk-app] #15211 not #15195
[mk-app] #15235 not #15069
[mk-app] #14941 or #15235 #15059
[inst-discovered] theory-solving 0x0 basic# ; #14941
[mk-app] #15251 = #14941 #14941
[instance] 0x0 #15251
[attach-enode] #15251 0
[end-of-instance]
[mk-app] #15251 not #14941
[mk-app] #15233 or #14833 #14831 #14799 #15211 #15251
[inst-discovered] theory-solving 0x0 basic# ; #15233
[mk-app] #15234 = #15233 #15233
[instance] 0x0 #15234
[attach-enode] #15234 0
[end-of-instance]
[mk-app] #15234 = #15233 #15063
[mk-app] #15226 not #15233
[mk-app] #15227 not #15234
[inst-discovered] theory-solving 0x0 basic# ; #15227
[mk-app] #15226 = #15227 #15227
[instance] 0x0 #15226
[attach-enode] #15226 0
[end-of-instance]
[mk-app] #15226 not #12508
[mk-app] #15208 or #15226 #15227
[instance] 3811576095 ; 1
[attach-enode] #14834 1
[attach-enode] #14832 1
[attach-enode] #14830 1
[attach-enode] #14823 1
[attach-enode] #14798 1
[attach-enode] #14772 1
[attach-enode] #14765 1
[attach-enode] #14766 1
[attach-enode] #14715 1
[attach-enode] #15036 1
[attach-enode] #15037 1
[attach-enode] #15038 1
[attach-enode] #15079 1
[attach-enode] #15080 1
[attach-enode] #15081 1
[mk-app] #15204 = #15079 #15082
[new-match] 0 datatype#220 datatype#217 #15079 #15080 ; #15081
[instance] 0 #15204
[attach-enode] #15082 1
[end-of-instance]
[mk-app] #15204 = #15080 #15083
[new-match] 0 datatype#223 datatype#217 #15079 #15080 ; #15081
[instance] 0 #15204
[attach-enode] #15083 1
[end-of-instance]
[attach-enode] #15039 1
[attach-enode] #15040 1
[attach-enode] #15041 1
[attach-enode] #15042 1
[attach-enode] #15043 1
[attach-enode] #15045 1
[attach-enode] #15046 1
[attach-enode] #15047 1
[attach-enode] #15054 1
[attach-enode] #15056 1
[attach-enode] #15063 1
[assign] (not #15234) justification -1: 1236
[end-of-instance]
[assign] #14761 clause 2460 2467
[assign] #14748 clause 2466 2467
[assign] #14121 justification -1: 1868 2338 1852 2329
[assign] #14747 justification -1: 1867 1863 1861 2254 1965
[assign] #13926 justification -1: 2326 2331 2328 1851
[assign] #15063 justification -1: 1878 1873
[eq-expl] #14768 root
[new-match] 3947518575 #11029 #6617 #14768 ; #14769
[new-match] 728421953 #11876 #3981 #14344 #5644 #3903 #244 #120 ; #14768
[eq-expl] #3535 root
[new-match] 2037044517 #1633 #1629 #3535 ; #14230 (#1623 #1623)
[eq-expl] #3473 root
[new-match] 4145997470 #1633 #1629 #3473 ; #14234 (#1623 #1623)
[mk-app] #15204 or #13649 #14788 #14790
[instance] 3947518575 ; 3
[attach-enode] #14787 3
[attach-enode] #14789 3
[attach-enode] #14790 3
[end-of-instance]
[mk-app] #15201 not #11876
[mk-app] #15196 or #15201 #13451 #14794 #13614 #14796
[instance] 728421953 ; 4
[attach-enode] #14793 4
[attach-enode] #14795 4
[attach-enode] #14796 4
[end-of-instance]
[mk-app] #15197 not #1633
[mk-app] #15185 or #15197 #14244 #14246
[instance] 2037044517 ; 2
[attach-enode] #14245 2
[attach-enode] #14246 2
[assign] #14246 justification -1: 501 2472
[end-of-instance]
[mk-app] #14828 or #15197 #14250 #14252
[instance] 4145997470 ; 2
[attach-enode] #14251 2
[attach-enode] #14252 2
[assign] #14252 justification -1: 501 2473
[end-of-instance]
[assign] (not #15075) clause -2450 -2451 2452
[assign] (not #14758) clause -2459 -2453 -2460
[assign] #13942 clause 2471 -2470
[assign] (not #15233) clause -2487 -2488 2489
[assign] #14106 clause 2449 2450
[assign] #14118 clause 2417 2450
[assign] #14745 clause 2404 2459
[assign] #14742 clause 2454 2459
[assign] #14756 clause 2455 2459
[assign] #14726 clause 2458 2459
[assign] #14832 clause 2474 2487
[assign] #14830 clause 2475 2487
[assign] #14798 clause 2476 2487
[assign] #15195 clause 2482 2487
[assign] #14941 clause 2486 2487
[assign] #14117 clause 2416 -2417 -1869
[assign] (not #14218) clause -2179 -2404 -2405 -2191 -2177 -2175
[assign] #14154 clause 2178 -2404 -2405 -2191
[assign] #14793 justification -1: 2229 2269
[assign] #2949 justification -1: 2475 2495 1874
[assign] #14780 justification -1: 1967 1965 1966 1962 2494 1872
[assign] #427 justification -1: 1835 1962 2476 1966 1965 1962 2494 1872 2495 1874
[mk-app] #15174 = #3764 #14792
[attach-meaning] #363 arith (- 1)
[assign] #15174 justification -1: 2494 1872
[attach-enode] #15174 0
[assign] #15089 justification -1: 2496
[assign] #15090 justification -1: 2496
[mk-app] #15159 = #3865 #14778
[attach-meaning] #363 arith (- 1)
[assign] #15159 justification -1: 1965 1966 1962 2494 1872
[attach-enode] #15159 0
[assign] #15093 justification -1: 2497
[assign] #15094 justification -1: 2497
[eq-expl] #13928 cg (#13859 #3696) ; #3697
[eq-expl] #13941 cg (#13928 #3697) ; #13821
[eq-expl] #13821 cg (#3697 #13252) ; #13884
[eq-expl] #13884 lit #15129 ; #13250
[new-match] 4245809972 #482 #206 #13941 ; #13942 (#203 #203)
[new-match] 877182954 #210 #206 #13941 ; #13942 (#203 #203)
[new-match] 2901573588 #183 #179 #3563 ; #14106 (#135 #135)
[eq-expl] #14834 root
[new-match] 2192436563 #1713 #1709 #14834 #7229 #3840 ; #14832 (#7230 #7230)
[eq-expl] #3473 lit #14252 ; #14251
[eq-expl] #14251 root
[new-match] 2462853094 #12488 #7202 #3473 ; #14830
[new-match] 2192983326 #1702 #1701 #3162 ; #14834
[new-match] 3605618164 #7343 #7340 #13251 #244 #120 ; #14116
[new-match] 3053543861 #9051 #9050 #13251 ; #14116 (#120 #120) (#244 #244)
[eq-expl] #3535 lit #14246 ; #14245
[eq-expl] #3536 lit #3528 ; #3922
[eq-expl] #14245 cg (#3536 #3922) ; #3923
[new-match] 62391177 #1636 #1635 #3922 ; #14230 (#1623 #1623) (#3535 #3923)
[eq-expl] #3522 lit #14870 ; #14860
[eq-expl] #14860 root
[eq-expl] #3474 lit #3466 ; #3522
[eq-expl] #2975 cg (#3522 #3474) ; #14251
[new-match] 3505151154 #1636 #1635 #3522 ; #14234 (#1623 #1623) (#3473 #2975)
[eq-expl] #3764 lit #3364 ; #3872
[eq-expl] #3872 lit #1903 ; #1999
[eq-expl] #1999 lit #13247 ; #3831
[eq-expl] #3831 root
[new-match] 3679769547 #460 #459 #13814 ; #13862 (#184 #184) (#13823 #13823)
[new-match] 1829841835 #14756 #14160 #13823 ; #13827 (#120 #120) (#244 #244) (#13816 #14035)
[new-match] 3445817394 #14756 #14160 #14306 ; #14307 (#120 #120) (#244 #244) (#3903 #14035)
[new-match] 348695290 #14756 #14160 #14344 ; #14685 (#120 #120) (#244 #244) (#3903 #14035)
[eq-expl] #14792 cg (#3535 #3923) ; #3764
[eq-expl] #15041 cg (#14792 #13814) ; #13823
[eq-expl] #14820 cg (#3535 #3923) ; #3911
[eq-expl] #14777 cg (#14820 #3902) ; #3903
[new-match] 1431782261 #14756 #14160 #15041 ; #15046 (#120 #120) (#244 #244) (#14777 #14035)
[mk-app] #15155 uInv #270 #13971
[mk-app] #14825 or #13970 #15155
[mk-app] #15149 not #482
[mk-app] #15146 or #15149 #13970 #15155
[instance] 4245809972 ; 4
[attach-enode] #13969 4
[attach-enode] #13971 4
[attach-enode] #15155 4
[end-of-instance]
[mk-app] #14825 or #13970 #13979
[mk-app] #15120 not #210
[mk-app] #15118 or #15120 #13970 #13979
[instance] 877182954 ; 4
[attach-enode] #13978 4
[attach-enode] #13979 4
[end-of-instance]
[mk-app] #14825 not #183
[mk-app] #15114 or #14825 #14107 #14180
[instance] 2901573588 ; 2
[attach-enode] #14179 2
[attach-enode] #14180 2
[assign] #14180 justification -1: 27 2449
[end-of-instance]
[mk-app] #15084 or #4783 #14833 #15116
[instance] 2192436563 ; 2
[attach-enode] #15115 2
[attach-enode] #15116 2
[assign] #15116 justification -1: 513 2474
[end-of-instance]
[mk-app] #15086 not #15110
[inst-discovered] theory-solving 0x0 basic# ; #15113
[mk-app] #15086 = #15113 #15113
[instance] 0x0 #15086
[attach-enode] #15086 0
[end-of-instance]
[mk-app] #15086 or #13637 #15113
[instance] 2462853094 ; 2
[attach-enode] #15095 2
[attach-enode] #15098 2
[attach-enode] #15099 2
[attach-enode] #15100 2
[attach-enode] #15101 2
[attach-enode] #15102 2
[attach-enode] #15105 2
[attach-enode] #15106 2
[attach-enode] #15107 2
[attach-enode] #15111 2
[assign] (not #15112) justification -1: 1234
[end-of-instance]
[mk-app] #15085 or #13330 #15119
[instance] 2192983326 ; 2
[attach-enode] #15119 2
[assign] #15119 justification -1: 512
[end-of-instance]
[mk-app] #15077 or #13933 #14186
[mk-app] #15076 not #7343
[mk-app] #15078 or #15076 #13933 #14186
[instance] 3605618164 ; 2
[attach-enode] #14186 2
[assign] #14186 justification -1: 1240 2336
[end-of-instance]
[mk-app] #15077 = #14116 #13251
[mk-app] #14837 not #9051
[mk-app] #14829 or #14837 #15077
[instance] 3053543861 ; 2
[attach-enode] #15077 2
[assign] #15077 justification -1: 1465
[end-of-instance]
[mk-app] #14857 + #14680 #14528
[mk-app] #14836 >= #14857 #334
[mk-app] #14838 not #14836
[mk-app] #14839 + #14680 #14723
[mk-app] #14850 >= #14839 #334
[mk-app] #14869 vstd!seq.Seq.index.? #120 #244 #14035 #14344
[mk-app] #14872 u_tokenizer!lex.within.? #8402 #14869
[mk-app] #14873 or #13614 #14838 #14850 #14872
[mk-app] #14876 + #14528 #14680
[inst-discovered] theory-solving 0x0 arith# ; #14857
[mk-app] #14913 = #14857 #14876
[instance] 0x0 #14913
[attach-enode] #14913 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14913 + #14200 #14696
[mk-app] #14945 <= #14913 #334
[mk-app] #14912 >= #14876 #334
[inst-discovered] theory-solving 0x0 arith# ; #14912
[mk-app] #14951 = #14912 #14945
[instance] 0x0 #14951
[attach-enode] #14951 0
[end-of-instance]
[mk-app] #14876 not #14945
[mk-app] #14912 or #13614 #14876 #14850 #14872
[inst-discovered] theory-solving 0x0 basic# ; #14912
[mk-app] #14951 = #14912 #14912
[instance] 0x0 #14951
[attach-enode] #14951 0
[end-of-instance]
[mk-app] #14951 or #14757 #13614 #14876 #14850 #14872
[instance] 1829841835 ; 2
[attach-enode] #14913 2
[attach-enode] #14839 2
[attach-enode] #14869 2
[attach-enode] #14872 2
[end-of-instance]
[mk-app] #14912 + #14528 #14841
[inst-discovered] theory-solving 0x0 arith# ; #14842
[mk-app] #14935 = #14842 #14912
[instance] 0x0 #14935
[attach-enode] #14935 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14935 >= #14912 #334
[inst-discovered] theory-solving 0x0 arith# ; #14935
[mk-app] #14961 = #14935 #14853
[instance] 0x0 #14961
[attach-enode] #14961 0
[end-of-instance]
[mk-app] #14912 not #14853
[mk-app] #14935 + #14723 #14841
[inst-discovered] theory-solving 0x0 arith# ; #14845
[mk-app] #14961 = #14845 #14935
[instance] 0x0 #14961
[attach-enode] #14961 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14961 + #14718 #14851
[mk-app] #14957 <= #14961 #334
[mk-app] #14995 >= #14935 #334
[inst-discovered] theory-solving 0x0 arith# ; #14995
[mk-app] #14976 = #14995 #14957
[instance] 0x0 #14976
[attach-enode] #14976 0
[end-of-instance]
[mk-app] #14935 or #14840 #14912 #14957 #14848
[inst-discovered] theory-solving 0x0 basic# ; #14935
[mk-app] #14995 = #14935 #14935
[instance] 0x0 #14995
[attach-enode] #14995 0
[end-of-instance]
[mk-app] #14995 or #14757 #14840 #14912 #14957 #14848
[instance] 3445817394 ; 5
[attach-enode] #14671 5
[attach-enode] #14961 5
[attach-enode] #14847 5
[attach-enode] #14848 5
[end-of-instance]
[mk-app] #14935 + #14528 #14680
[inst-discovered] theory-solving 0x0 arith# ; #14857
[mk-app] #14976 = #14857 #14935
[instance] 0x0 #14976
[attach-enode] #14976 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14976 >= #14935 #334
[inst-discovered] theory-solving 0x0 arith# ; #14976
[mk-app] #15016 = #14976 #14945
[instance] 0x0 #15016
[attach-enode] #15016 0
[end-of-instance]
[mk-app] #14935 or #13614 #14876 #14850 #14872
[inst-discovered] theory-solving 0x0 basic# ; #14935
[mk-app] #14976 = #14935 #14935
[instance] 0x0 #14976
[attach-enode] #14976 0
[end-of-instance]
[instance] 348695290 ; 5
[end-of-instance]
[mk-app] #14935 + #14528 #14680
[inst-discovered] theory-solving 0x0 arith# ; #14857
[mk-app] #14976 = #14857 #14935
[instance] 0x0 #14976
[attach-enode] #14976 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #14976 >= #14935 #334
[inst-discovered] theory-solving 0x0 arith# ; #14976
[mk-app] #15016 = #14976 #14945
[instance] 0x0 #15016
[attach-enode] #15016 0
[end-of-instance]
[mk-app] #14935 or #13614 #14876 #14850 #14872
[inst-discovered] theory-solving 0x0 basic# ; #14935
[mk-app] #14976 = #14935 #14935
[instance] 0x0 #14976
[attach-enode] #14976 0
[end-of-instance]
[instance] 1431782261 ; 2
[end-of-instance]
[assign] #14796 clause 2493 -2492
[assign] #447 clause 1901 -1900
[assign] #14782 clause 2439 -2438
[assign] #430 clause 1904 -1903
[assign] #14787 justification -1: 2493 717 715 2269
[assign] #13969 justification -1: 2471 2469 2331 2328 1851
[assign] #15111 justification -1: 2475 2495
[assign] #14671 justification -1: 2230 2270
[assign] #14496 justification -1: 2416 2511
[mk-app] #14935 = #2908 #15095
[attach-meaning] #363 arith (- 1)
[mk-app] #14976 * #363 #15095
[mk-app] #15016 + #2908 #14976
[mk-app] #14998 <= #15016 #334
[mk-app] #15001 >= #15016 #334
[assign] #14935 justification -1: 2495 2495 1874
[attach-enode] #14935 0
[attach-enode] #14976 0
[attach-enode] #15016 0
[assign] #14998 justification -1: 2518
[assign] #15001 justification -1: 2518
[mk-app] #15010 = #3865 #15100
[attach-meaning] #363 arith (- 1)
[mk-app] #15004 + #3865 #15101
[mk-app] #15008 <= #15004 #334
[mk-app] #14952 >= #15004 #334
[assign] #15010 justification -1: 1965 2476 1966 1962 2494 1872 2495
[attach-enode] #15010 0
[attach-enode] #15004 0
[assign] #15008 justification -1: 2521
[assign] #14952 justification -1: 2521
[mk-app] #14953 = #13626 #15105
[attach-meaning] #363 arith (- 1)
[mk-app] #14871 + #13626 #15106
[mk-app] #14888 <= #14871 #334
[mk-app] #14827 >= #14871 #334
[assign] #14953 justification -1: 1962 1965 2476 1966 1962 2494 1872 2495
[attach-enode] #14953 0
[attach-enode] #14871 0
[assign] #14888 justification -1: 2524
[assign] #14827 justification -1: 2524
[assign] (not #14945) clause -2512 -2401 -2191 -2177 -2175
[assign] (not #15069) clause -2424 -2173 -2242 -2175 -2425 -2426
[eq-expl] #3556 lit #3556 ; #1
[eq-expl] #1 root
[new-match] 2296941121 #164 #163 #3556 ; #14179
[eq-expl] #15036 root
[new-match] 535486139 #1702 #1701 #15036 ; #15115
[new-match] 956082653 #11105 #11104 #14768 ; #14787 (#3200 #3204)
[eq-expl] #3563 lit #14180 ; #14179
[eq-expl] #14179 root
[new-match] 3667285938 #138 #137 #3556 ; #14106 (#135 #135) (#3563 #14179)
[mk-app] #14835 = #1 #8810
[inst-discovered] theory-solving 0x0 basic# ; #14835
[mk-app] #14826 = #14835 #8810
[instance] 0x0 #14826
[attach-enode] #14826 0
[end-of-instance]
[mk-app] #14826 not #164
[mk-app] #14817 or #14826 #8810
[instance] 2296941121 ; 3
[attach-enode] #6187 3
[attach-enode] #8810 3
[assign] #8810 justification -1: 24
[end-of-instance]
[mk-app] #14818 or #13752 #14864 #14867
[instance] 956082653 ; 4
[attach-enode] #14863 4
[attach-enode] #14865 4
[attach-enode] #14866 4
[attach-enode] #14867 4
[end-of-instance]
[assign] #14790 clause 2491 -2490
[assign] #15155 clause 2499 -2498
[assign] #13979 clause 2500 -2498
[assign] (not #15110) clause -2506 -2507 2508
[assign] (not #14812) clause -2422 -2421 2420
[assign] (not #15049) clause -2481 2424 -2482
[assign] #15096 clause 2503 2506
[assign] #15103 clause 2504 2506
[assign] #15108 clause 2505 2506
[assign] #14889 clause 2423 2422 2419
[assign] #14766 clause 2477 2481
[assign] #14715 clause 2478 2481
[assign] #15043 clause 2479 2481
[assign] #15047 clause 2480 2481
[assign] #15143 justification -1: 2477 2494 1872 2495 1874
[mk-app] #14815 = #3162 #15142
[mk-app] #14816 => #14715 #14815
[inst-discovered] theory-solving 0x0 datatype# ; #3162
[instance] 0 #14816
[end-of-instance]
[attach-enode] #15140 0
[attach-enode] #15142 0
[mk-app] #14815 = #15140 #15144
[new-match] 0 datatype#15 datatype#12 #15140 ; #15142
[instance] 0 #14815
[attach-enode] #15144 0
[end-of-instance]
[assign] #14863 justification -1: 2490 717
[mk-app] #14815 = #11137 #15205
[attach-meaning] #363 arith (- 1)
[mk-app] #14816 + #11137 #15209
[mk-app] #14785 <= #14816 #334
[mk-app] #14776 >= #14816 #334
[assign] #14815 justification -1: 2477 2254 2494 1872 2495 1874
[attach-enode] #14815 0
[attach-enode] #14816 0
[assign] #14785 justification -1: 2530
[assign] #14776 justification -1: 2530
[eq-expl] #13971 cg (#13250 #13821) ; #13822
[eq-expl] #13822 lit #13825 ; #13824
[new-match] 2039972352 #11540 #442 #13971 #270 ; #15155
[new-match] 1520299109 #6591 #6590 #6613 #14768 ; #14789
[new-match] 3343054564 #11027 #6605 #6612 #14768 ; #14789 (#6613 #6613)
[new-match] 669353760 #169 #168 #13971 ; #13978
[eq-expl] #15038 ax ; #15081
[eq-expl] #15081 root
[new-match] 263114432 #2775 #2774 #15038 ; #15045
[new-match] 1502330526 #2763 #2762 #15038 ; #15039
[new-match] 3589829869 #1739 #1734 #15036 #7229 #3840 ; #15037
[eq-expl] #14834 lit #15116 ; #15115
[eq-expl] #15115 root
[new-match] 3711439481 #1746 #1743 #14834 #7229 #3840 ; #15037 (#15036 #15036) #7230 (#3840 #3840) (#7229 #7229) #14832 (#14834 #15115) (#7230 #7230)
[eq-expl] #13978 lit #13979 ; #13250
[new-match] 3954363791 #10995 #470 #13971 ; #13942 (#203 #203) (#13941 #13978)
[eq-expl] #15140 ax ; #15144
[eq-expl] #15144 root
[eq-expl] #15142 unknown ; #3162
[eq-expl] #3162 lit #15119 ; #15036
[new-match] 3094127524 #1728 #1724 #15140 #7229 #3840 ; #14832 (#14834 #15115) (#7230 #7230) (#15036 #15142)
[mk-app] #14814 or #13999 #14009
[mk-app] #15250 = #14814 #14003
[mk-app] #15252 not #14814
[mk-app] #15253 not #15250
[inst-discovered] theory-solving 0x0 basic# ; #15253
[mk-app] #15252 = #15253 #15253
[instance] 0x0 #15252
[attach-enode] #15252 0
[end-of-instance]
[mk-app] #15252 or #13345 #15253
[instance] 2039972352 ; 5
[attach-enode] #14007 5
[attach-enode] #14008 5
[attach-enode] #14003 5
[assign] (not #15250) justification -1: 58
[end-of-instance]
[mk-app] #15254 or #14371 #14875
[instance] 1520299109 ; 4
[attach-enode] #14874 4
[attach-enode] #14875 4
[assign] #14875 justification -1: 1159
[end-of-instance]
[mk-app] #15255 or #14374 #14788 #14885
[instance] 3343054564 ; 4
[mk-app] #15256 = #14884 #334
[mk-app] #15257 = #14883 #14884
[attach-enode] #14884 4
[attach-enode] #14877 4
[attach-enode] #14878 4
[attach-enode] #14879 4
[attach-enode] #14880 4
[attach-enode] #14881 4
[attach-enode] #14882 4
[attach-enode] #14883 4
[attach-enode] #15256 4
[attach-enode] #15257 4
[attach-enode] #14885 4
[assign] #14885 justification -1: 1160 2490
[end-of-instance]
[mk-app] #15258 = #15153 #15080
[mk-app] #15259 or #14300 #15258
[instance] 263114432 ; 2
[attach-enode] #15153 2
[attach-enode] #15258 2
[assign] #15258 justification -1: 670
[end-of-instance]
[mk-app] #15260 = #15157 #15079
[mk-app] #15261 or #15124 #15260
[instance] 1502330526 ; 2
[attach-enode] #15157 2
[attach-enode] #15260 2
[assign] #15260 justification -1: 668
[end-of-instance]
[mk-app] #15262 or #13878 #15162 #15164
[instance] 3589829869 ; 2
[attach-enode] #15161 2
[attach-enode] #15163 2
[attach-enode] #15164 2
[end-of-instance]
[mk-app] #15263 or #14314 #15168 #15171
[instance] 3711439481 ; 2
[attach-enode] #15167 2
[attach-enode] #15169 2
[attach-enode] #15170 2
[attach-enode] #15171 2
[end-of-instance]
[assign] #15139 clause 2429 -2428
[assign] #15150 clause 2427 -2428
[assign] #14867 clause 2529 -2528
[assign] #406 clause 1906 -2427
[assign] #14003 justification -1: 2499 2162 2469
[assign] #15161 justification -1: 2478 2509
[assign] #15167 justification -1: 2474 2502
[assign] #15214 clause 2433 -2429 -2242 -2173 -2445 -2447
[assign] (not #408) clause -1907 -1886 -2175 -2427
[assign] #15238 clause 2434 -2429 -2191 -2435 -2445 -2447
[assign] #15237 clause 2437 -2427 -2432 -2255 -2444 -2448
[assign] (not #15218) clause -2436 -2427 -2175 -1971 -2444 -2448
[new-match] 2718630501 #6591 #6590 #6587 #14768 ; #14874
[new-match] 1772708795 #3884 #3879 #14768 #244 #120 ; #14877
[new-match] 1771839088 #11940 #4193 #14344 #5644 #3903 #244 #120 ; #14877 (#14768 #14768) (#120 #120) (#120 #120) (#244 #244) (#244 #244)
[eq-expl] #14865 root
[new-match] 4248902211 #1462 #1461 #14865 ; #14866
[eq-expl] #14866 lit #14867 ; #14768
[new-match] 3016177539 #1513 #1512 #14865 ; #14787 (#3200 #3204) (#14768 #14866)
[mk-app] #15264 or #13454 #14891 #14892
[instance] 1772708795 ; 5
[attach-enode] #14890 5
[end-of-instance]
[mk-app] #15265 or #13451 #14794 #13614 #13510 #14897 #14901 #14910 #14906
[inst-discovered] theory-solving 0x0 basic# ; #15265
[mk-app] #15266 = #15265 #15265
[instance] 0x0 #15266
[attach-enode] #15266 0
[end-of-instance]
[mk-app] #15266 not #11940
[mk-app] #15267 or #15266 #13451 #14794 #13614 #13510 #14897 #14901 #14910 #14906
[instance] 1771839088 ; 5
[attach-enode] #14899 5
[assign] #14909 justification -1: -2393
[attach-enode] #14904 5
[attach-enode] #14905 5
[attach-enode] #14906 5
[end-of-instance]
[assign] (not #14814) clause -2535 -2536 2537
[assign] #15164 clause 2546 -2545
[assign] #15171 clause 2548 -2547
[assign] #453 clause 1908 1907
[assign] #13998 clause 2533 2535
[assign] (not #14009) clause -2534 2535
[assign] #14890 justification -1: 2490 717 715
[eq-expl] #15169 cg (#15115 #14834) ; #15036
[eq-expl] #15170 cg (#3840 #3840) (#7229 #7229) (#15169 #15036) ; #15037
[eq-expl] #15037 lit #15164 ; #15163
[eq-expl] #15163 cg (#15036 #3162) ; #15140
[new-match] 2163120096 #2782 #2779 #15170 #244 #120 #203 #120 ; #15171 (#7229 #7229) #15038 (#15037 #15144) #15045 (#15038 #15081)
[new-match] 3893095121 #2770 #2767 #15170 #244 #120 #203 #120 ; #15171 (#7229 #7229) #15038 (#15037 #15144) #15039 (#15038 #15081)
[new-match] 1289181441 #2747 #2743 #15170 #244 #120 #203 #120 ; #15171 (#7229 #7229)
[mk-app] #15265 or #15138 #15135
[mk-app] #15268 or #15131 #15138 #15135
[instance] 3893095121 ; 3
[attach-enode] #15141 3
[attach-enode] #15136 3
[mk-app] #15269 tuple%2./tuple%2/?0 #15136
[mk-app] #15270 tuple%2./tuple%2/?1 #15136
[mk-app] #15271 tuple%2./tuple%2 #15269 #15270
[attach-enode] #15269 3
[attach-enode] #15270 3
[attach-enode] #15271 3
[mk-app] #15272 tuple%2./tuple%2/?0 #15271
[mk-app] #15273 = #15269 #15272
[new-match] 0 datatype#220 datatype#217 #15269 #15270 ; #15271
[instance] 0 #15273
[attach-enode] #15272 3
[end-of-instance]
[mk-app] #15273 tuple%2./tuple%2/?1 #15271
[mk-app] #15274 = #15270 #15273
[new-match] 0 datatype#223 datatype#217 #15269 #15270 ; #15271
[instance] 0 #15274
[attach-enode] #15273 3
[end-of-instance]
[attach-enode] #15137 3
[attach-enode] #15135 3
[end-of-instance]
[mk-app] #15265 or #15138 #15183
[mk-app] #15274 or #14182 #15138 #15183
[instance] 1289181441 ; 3
[attach-enode] #15182 3
[attach-enode] #15183 3
[end-of-instance]
[assign] #14892 clause 2550 -2549
[assign] #15141 justification -1: 2548 2546 2509 2502
[new-match] 2468786380 #2782 #2779 #15037 #244 #120 #203 #120 ; #15045 (#15038 #15038) #15171 (#15037 #15144) (#15170 #15144) (#7229 #7229)
[new-match] 2822858100 #2770 #2767 #15037 #244 #120 #203 #120 ; #15039 (#15038 #15038) #15171 (#15037 #15144) (#15170 #15144) (#7229 #7229)
[mk-app] #15265 or #15138 #15135
[instance] 2822858100 ; 3
[assign] #15135 justification -1: 669 2554
[end-of-instance]
[assign] #15183 clause 2556 -2554
[eq-expl] #15136 cg (#15140 #15037) ; #15038
[eq-expl] #15137 cg (#15136 #15038) ; #15039
[eq-expl] #15039 cg (#15038 #15081) ; #15157
[eq-expl] #15157 lit #15260 ; #15079
[eq-expl] #15079 ax ; #15082
[eq-expl] #15082 root
[new-match] 101168996 #482 #206 #15137 ; #15135 (#203 #203)
[new-match] 762031661 #210 #206 #15137 ; #15135 (#203 #203)
[new-match] 537208647 #2736 #2735 #15136 ; #15182
[eq-expl] #15080 lit #15258 ; #15153
[eq-expl] #15153 cg (#15081 #15038) ; #15045
[eq-expl] #15045 lit #15047 ; #15046
[eq-expl] #15046 cg (#120 #120) (#244 #244) (#14777 #13816) (#15041 #13823) ; #13827
[eq-expl] #13827 lit #13828 ; #3683
[eq-expl] #15182 lit #15183 ; #15140
[new-match] 3892390515 #11641 #2754 #15080 #15079 #244 #120 #203 #120 ; #15171 (#7229 #7229) (#15170 #15182) (#15136 #15081)
[mk-app] #15265 or #15246 #15249
[mk-app] #15275 or #15120 #15246 #15249
[instance] 762031661 ; 4
[attach-enode] #15245 4
[attach-enode] #15247 4
[attach-enode] #15248 4
[attach-enode] #15249 4
[end-of-instance]
[assign] #15245 justification -1: 2555 2544 2546 2509
[assign] #15249 clause 2558 -2557
[assign] (not #15054) justification -1: -2275 2331 2333 2556 2543 2480 2163 2329 2494 1872 1961 1965 1966 1962 1965 1966 2558 2500 2162 2479 2544 2469 2546 2509 2328 1851 2478
[eq-expl] #13861 cg (#13860 #3705) ; #13891
[eq-expl] #13891 lit #13892 ; #3696
[eq-expl] #3696 lit #14065 ; #14069
[eq-expl] #15079 lit #15249 ; #15248
[eq-expl] #15247 cg (#15079 #15039) ; #15040
[eq-expl] #15040 lit #15043 ; #15042
[eq-expl] #15042 cg (#14777 #13816) (#15041 #13823) ; #13824
[eq-expl] #15248 cg (#15247 #13971) ; #13978
[eq-expl] #15081 cg (#15079 #13250) (#15080 #13251) ; #13252
[eq-expl] #14069 cg (#3697 #15136) ; #15182
[eq-expl] #13860 cg (#13859 #15140) ; #15142
[eq-expl] #15115 cg (#15036 #3719) ; #3704
[new-match] 3101571550 #1746 #1743 #3704 #7229 #3840 ; #15037 (#15036 #3705) #7230 (#3840 #3840) (#7229 #7229) #14832 (#14834 #13853) (#7230 #7230)
[new-match] 3223396007 #1728 #1724 #15140 #7229 #7289 ; #13811 (#3704 #15115) (#7290 #7290) (#15036 #15142)
[assign] #15058 clause 2485 2483
[push] 9
[assign] (not #13228) decision axiom
[assign] (not #739) justification -1: -1813
[assign] (not #13264) justification -1: -1813 1953
[assign] (not #13268) justification -1: -1813 1953
[assign] (not #13397) justification -1: -1813 1953
[assign] (not #13401) justification -1: -1813 1953
[push] 10
[assign] (not #432) decision axiom
[assign] (not #155) justification -1: -1816
[assign] (not #13277) justification -1: -1816 1956
[assign] (not #13281) justification -1: -1816 1956
[assign] (not #13408) justification -1: -1816 1956
[assign] (not #13412) justification -1: -1816 1956
[push] 11
[assign] (not #13221) decision axiom
[assign] (not #13239) justification -1: -1819
[assign] (not #13290) justification -1: -1819 1959
[assign] (not #13294) justification -1: -1819 1959
[assign] (not #13419) justification -1: -1819 1959
[assign] (not #13423) justification -1: -1819 1959
[decide-and-or] #13227 #438
[push] 12
[assign] (not #373) decision axiom
[assign] #2924 clause 1905 1909
[decide-and-or] #13388 #13381
[push] 13
[assign] (not #13380) decision axiom
[assign] #13376 clause 1943 1945
[assign] #13378 clause 1944 1945
[assign] (not #13382) clause -1946 -1944
[assign] #13384 clause 1947 -1944
[assign] #13386 clause 1948 1946
[push] 14
[assign] (not #14283) decision axiom
[push] 15
[assign] (not #14420) decision axiom
[assign] #14422 clause 2203 2200
[assign] #13858 clause 2208 2200 -2209
[assign] #13872 clause 2364 2200 -2209 -2383
[assign] #14055 clause 2365 2200 -2209 -2383
[assign] (not #14428) clause -2204 -2203 -2205
[assign] #14081 clause 2371 -2364
[assign] #14073 clause 2369 -2365
[assign] #14424 clause 2201 2204
[assign] #14426 clause 2202 2204
[push] 16
[assign] (not #13856) decision axiom
[push] 17
[assign] (not #14571) decision axiom
[assign] #14632 clause 2296 2299
[assign] (not #13785) clause -2297 2299
[assign] #14440 clause 2298 2299
[assign] #14568 clause 2301 2299
[assign] (not #14504) clause -2206 2297 -2321
[assign] #14391 clause 2207 2297 -2272 -2290 -2191 -2321
[assign] #14853 clause 2408 2297 -2409 -2321 -2290 -2272
[eq-expl] #14460 root
[new-match] 32987901 #12713 #8310 #14460 #14321 ; #14440
[new-match] 3565802016 #8330 #8329 #8363 #14321 #14588 #3903 ; #14603
[new-match] 2894292669 #14756 #14160 #14394 ; #14460 (#120 #120) (#244 #244) (#3903 #14035)
[new-match] 884881102 #11858 #3908 #14394 #3903 #244 #120 ; #14460
[eq-expl] #14578 root
[new-match] 2126151745 #169 #168 #14578 ; #14588
[eq-expl] #14653 cg (#14394 #14126) ; #14200
[new-match] 2800690745 #550 #548 #289 #14653 ; #14578
[mk-app] #15265 not #12713
[mk-app] #15276 or #15265 #14934
[instance] 32987901 ; 4
[attach-enode] #14802 4
[attach-enode] #14917 4
[attach-enode] #14918 4
[attach-enode] #7067 4
[attach-enode] #14919 4
[attach-enode] #14921 4
[attach-enode] #14804 4
[attach-enode] #7059 4
[attach-enode] #14922 4
[attach-enode] #14924 4
[attach-enode] #14926 4
[assign] #14934 justification -1: 1413
[end-of-instance]
[mk-app] #15277 or #14665 #14937
[instance] 3565802016 ; 4
[attach-enode] #14936 4
[attach-enode] #14937 4
[assign] #14937 justification -1: 1415
[end-of-instance]
[mk-app] #15278 not #11858
[mk-app] #15279 or #15278 #13451 #14669 #14939
[instance] 884881102 ; 4
[attach-enode] #14939 4
[assign] #14939 justification -1: 816 1967 2294
[end-of-instance]
[mk-app] #15280 or #14221 #14944
[instance] 2126151745 ; 4
[attach-enode] #14943 4
[attach-enode] #14944 4
[assign] #14944 justification -1: 25
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #15281 + #14200 #14946
[mk-app] #15282 = #15281 #363
[inst-discovered] theory-solving 0x0 arith# ; #14948
[mk-app] #15283 = #14948 #15282
[instance] 0x0 #15283
[attach-enode] #15283 0
[end-of-instance]
[mk-app] #15283 or #13974 #15282
[instance] 2800690745 ; 4
[attach-enode] #14521 4
[attach-enode] #14946 4
[attach-enode] #15281 4
[attach-enode] #15282 4
[mk-app] #15284 <= #15281 #363
[mk-app] #15285 >= #15281 #363
[assign] #15282 justification -1: 76
[end-of-instance]
[assign] #14933 clause 2572 -2573
[assign] #15284 clause 2578 -2577
[assign] #15285 clause 2579 -2577
[assign] (not #14802) justification -1: -2185 1863 1856 1856 2251 2266
[assign] (not #14804) justification -1: -2377 1863 2251 2266
[new-match] 1190380143 #8330 #8329 #6587 #14321 #14588 #3903 ; #14936
[new-match] 4262242206 #525 #247 #14460 ; #14939 (#244 #244)
[new-match] 3418653225 #251 #247 #14460 ; #14939 (#244 #244)
[inst-discovered] theory-solving 0x0 basic# ; #14956
[mk-app] #15286 = #14956 #14956
[instance] 0x0 #15286
[attach-enode] #15286 0
[end-of-instance]
[mk-app] #15286 or #14408 #14954 #14955
[instance] 4262242206 ; 5
[attach-enode] #14955 5
[assign] #14955 justification -1: 71 2575
[end-of-instance]
[mk-app] #15287 or #14396 #14954 #14959
[instance] 3418653225 ; 5
[attach-enode] #14958 5
[attach-enode] #14959 5
[assign] #14959 justification -1: 35 2575
[end-of-instance]
[assign] #14932 clause 2571 2559 -2572
[assign] #14931 clause 2570 -2571
[assign] #14930 clause 2569 -2570 2564
[assign] (not #14928) clause -2568 -2569
[assign] #14926 clause 2567 2568
[assign] (not #14924) clause -2566 2568
[eq-expl] #14918 root
[new-match] 2119951255 #11183 #454 #14918 ; #14955
[new-match] 4208461331 #169 #168 #14918 ; #14958
[eq-expl] #14460 lit #14959 ; #14958
[eq-expl] #14958 root
[new-match] 2968846760 #509 #505 #14918 ; #14939 (#244 #244) (#14460 #14958)
[mk-app] #15288 or #4386 #14975
[instance] 2119951255 ; 6
[assign] #14975 justification -1: 60
[end-of-instance]
[assign] #14974 clause 2588 -2589
[mk-app] #15289 <= #14918 #6750
[mk-app] #15290 >= #14918 #6750
[push] 18
[assign] (not #14435) decision axiom
[assign] (not #14418) clause -2306 2308
[assign] #14527 clause 2307 2308
[assign] #14407 clause 2310 2308
[eq-expl] #13945 root
[new-match] 3158738316 #12713 #8310 #13945 #14321 ; #14527
[new-match] 1011209418 #8330 #8329 #8363 #14321 #14499 #3903 ; #14461
[new-match] 2418423515 #14756 #14160 #14295 ; #13945 (#120 #120) (#244 #244) (#3903 #14035)
[new-match] 3590478860 #11858 #3908 #14295 #3903 #244 #120 ; #13945
[eq-expl] #14498 root
[new-match] 4165736656 #169 #168 #14498 ; #14499
[new-match] 3326059031 #550 #548 #289 #14576 ; #14498
[mk-app] #15291 or #15265 #14994
[instance] 3158738316 ; 4
[attach-enode] #14977 4
[attach-enode] #14978 4
[attach-enode] #14979 4
[attach-enode] #14981 4
[attach-enode] #14982 4
[attach-enode] #14984 4
[attach-enode] #14986 4
[assign] #14994 justification -1: 1413
[end-of-instance]
[mk-app] #15292 or #14665 #14997
[instance] 1011209418 ; 4
[attach-enode] #14996 4
[attach-enode] #14997 4
[assign] #14997 justification -1: 1415
[end-of-instance]
[mk-app] #15293 or #15278 #13451 #14661 #14999
[instance] 3590478860 ; 4
[attach-enode] #14999 4
[assign] #14999 justification -1: 816 1967 2304
[end-of-instance]
[mk-app] #15294 or #14221 #15003
[instance] 4165736656 ; 4
[attach-enode] #15002 4
[attach-enode] #15003 4
[assign] #15003 justification -1: 25
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #15295 + #13805 #15005
[mk-app] #15296 = #15295 #363
[inst-discovered] theory-solving 0x0 arith# ; #15007
[mk-app] #15297 = #15007 #15296
[instance] 0x0 #15297
[attach-enode] #15297 0
[end-of-instance]
[mk-app] #15297 or #13974 #15296
[instance] 3326059031 ; 4
[attach-enode] #14274 4
[attach-enode] #15005 4
[attach-enode] #15295 4
[attach-enode] #15296 4
[mk-app] #15298 <= #15295 #363
[mk-app] #15299 >= #15295 #363
[assign] #15296 justification -1: 76
[end-of-instance]
[assign] #14993 clause 2603 -2604
[assign] #15298 clause 2609 -2608
[assign] #15299 clause 2610 -2608
[assign] #14992 clause 2602 -2603
[assign] #14991 clause 2601 -2602
[assign] #14990 clause 2600 -2601
[assign] (not #14988) clause -2599 -2600
[assign] #14986 clause 2598 2599
[assign] (not #14984) clause -2597 2599
[new-match] 540726558 #8330 #8329 #6587 #14321 #14499 #3903 ; #14996
[new-match] 1347312039 #525 #247 #13945 ; #14999 (#244 #244)
[new-match] 3099759292 #251 #247 #13945 ; #14999 (#244 #244)
[inst-discovered] theory-solving 0x0 basic# ; #15015
[mk-app] #15300 = #15015 #15015
[instance] 0x0 #15300
[attach-enode] #15300 0
[end-of-instance]
[mk-app] #15300 or #14408 #15013 #15014
[instance] 1347312039 ; 5
[attach-enode] #15014 5
[assign] #15014 justification -1: 71 2606
[end-of-instance]
[mk-app] #15301 or #14396 #15013 #15018
[instance] 3099759292 ; 5
[attach-enode] #15017 5
[attach-enode] #15018 5
[assign] #15018 justification -1: 35 2606
[end-of-instance]
[eq-expl] #14978 root
[new-match] 681183850 #11183 #454 #14978 ; #15014
[new-match] 3117334482 #169 #168 #14978 ; #15017
[eq-expl] #13945 lit #15018 ; #15017
[eq-expl] #15017 root
[new-match] 2649803162 #509 #505 #14978 ; #14999 (#244 #244) (#13945 #15017)
[mk-app] #15302 or #4386 #15034
[instance] 681183850 ; 6
[assign] #15034 justification -1: 60
[end-of-instance]
[assign] #15033 clause 2619 -2620
[mk-app] #15303 <= #14978 #6750
[mk-app] #15304 >= #14978 #6750
[decide-and-or] #13995 #13988
[push] 19
[assign] (not #13987) decision axiom
[assign] #13983 clause 2340 2342
[assign] #13985 clause 2341 2342
[assign] (not #13989) clause -2343 -2341
[assign] #13991 clause 2344 -2341
[assign] #13993 clause 2345 2343
[push] 20
[assign] (not #13789) decision axiom
[assign] #13809 clause 2236 2235
[push] 21
[assign] (not #14695) decision axiom
[assign] #14681 clause 2392 2395
[assign] #14686 clause 2394 2395
[assign] #14704 clause 2397 2395
[assign] #14872 justification -1: 2394 1965 1965 1966 1962 1961 2267 2266
[new-match] 2280714649 #12713 #8310 #14685 #14321 ; #14686
[new-match] 2133480208 #8330 #8329 #8363 #14321 #14690 #3903 ; #14691
[mk-app] #15305 if #14804 #14493 #14889
[mk-app] #15306 if #14803 #14491 #15305
[mk-app] #15307 if #14802 #14490 #15306
[mk-app] #15308 = #14811 #15307
[mk-app] #15309 or #15265 #15308
[instance] 2280714649 ; 5
[attach-enode] #14811 5
[attach-enode] #14488 5
[attach-enode] #14489 5
[attach-enode] #14491 5
[attach-enode] #14492 5
[assign] #15305 justification -1: 2423 -2564
[assign] #15306 justification -1: -2418 2629
[assign] #15307 justification -1: -2559 2630
[assign] #15308 justification -1: 1413
[end-of-instance]
[mk-app] #15310 or #14665 #14822
[instance] 2133480208 ; 5
[attach-enode] #14821 5
[attach-enode] #14822 5
[assign] #14822 justification -1: 1415
[end-of-instance]
[assign] #14811 clause 2623 -2632
[assign] #14721 justification -1: 2394 1885 1839 1838 2248 2293 2633 2397 2398 2390 2387 2265 2267 2254 2253 1965 2268 1961 1965 1966 1962 2267 2266
[mk-app] #15311 = #14036 #14127
[attach-meaning] #363 arith (- 1)
[mk-app] #15312 + #14036 #14132
[mk-app] #15313 <= #15312 #334
[mk-app] #15314 >= #15312 #334
[assign] #15311 justification -1: 2248 2293 2633 2397 2398 2390 2387 2265 2267 1961 2254 2253 2267 2266 2268 1965
[attach-enode] #15311 0
[attach-enode] #15312 0
[assign] #15313 justification -1: 2634
[assign] #15314 justification -1: 2634
[assign] #14725 clause 2456 -2457 -2458
[resolve-process] true
[resolve-lit] 13 (not #14095)
[resolve-lit] 13 (not #13257)
[resolve-lit] 0 (not #14725)
[resolve-lit] 13 (not #14786)
[resolve-lit] 4 #14504
[resolve-lit] 0 (not #15314)
[resolve-process] (not #14725)
[resolve-lit] 0 (not #14721)
[resolve-lit] 13 (not #14726)
[resolve-process] (not #15314)
[resolve-lit] 0 (not #15311)
[resolve-process] (not #15311)
[resolve-lit] 0 (not #14822)
[resolve-lit] 0 (not #14704)
[resolve-lit] 13 (not #14700)
[resolve-lit] 13 (not #14674)
[resolve-lit] 13 (not #13736)
[resolve-process] (not #14721)
[resolve-lit] 0 (not #14686)
[resolve-lit] 13 (not #3364)
[resolve-lit] 13 (not #13247)
[resolve-process] (not #14822)
[resolve-process] (not #14704)
[resolve-lit] 0 #14695
[resolve-process] (not #14686)
[conflict] #14695 #14504 (not #14726) (not #13736) (not #3364) (not #13247)
[pop] 4 22
[assign] #14695 clause 2395 2206 -2458 -2387 -1885 -1838
[push] 18
[assign] (not #14435) decision axiom
[assign] (not #14418) clause -2306 2308
[assign] #14527 clause 2307 2308
[assign] #14407 clause 2310 2308
[eq-expl] #13945 root
[new-match] 3158738316 #12713 #8310 #13945 #14321 ; #14527
[new-match] 1011209418 #8330 #8329 #8363 #14321 #14499 #3903 ; #14461
[new-match] 2418423515 #14756 #14160 #14295 ; #13945 (#120 #120) (#244 #244) (#3903 #14035)
[new-match] 3590478860 #11858 #3908 #14295 #3903 #244 #120 ; #13945
[eq-expl] #14498 root
[new-match] 4165736656 #169 #168 #14498 ; #14499
[new-match] 3326059031 #550 #548 #289 #14576 ; #14498
[mk-app] #15295 or #15265 #14994
[instance] 3158738316 ; 4
[attach-enode] #14977 4
[attach-enode] #14978 4
[attach-enode] #14979 4
[attach-enode] #14981 4
[attach-enode] #14982 4
[attach-enode] #14984 4
[attach-enode] #14986 4
[assign] #14994 justification -1: 1413
[end-of-instance]
[mk-app] #15296 or #14665 #14997
[instance] 1011209418 ; 4
[attach-enode] #14996 4
[attach-enode] #14997 4
[assign] #14997 justification -1: 1415
[end-of-instance]
[mk-app] #15298 or #15278 #13451 #14661 #14999
[instance] 3590478860 ; 4
[attach-enode] #14999 4
[assign] #14999 justification -1: 816 1967 2304
[end-of-instance]
[mk-app] #15299 or #14221 #15003
[instance] 4165736656 ; 4
[attach-enode] #15002 4
[attach-enode] #15003 4
[assign] #15003 justification -1: 25
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[mk-app] #15303 + #13805 #15005
[mk-app] #15304 = #15303 #363
[inst-discovered] theory-solving 0x0 arith# ; #15007
[mk-app] #15305 = #15007 #15304
[instance] 0x0 #15305
[attach-enode] #15305 0
[end-of-instance]
[mk-app] #15305 or #13974 #15304
[instance] 3326059031 ; 4
[attach-enode] #14274 4
[attach-enode] #15005 4
[attach-enode] #15303 4
[attach-enode] #15304 4
[mk-app] #15306 <= #15303 #363
[mk-app] #15307 >= #15303 #363
[assign] #15304 justification -1: 76
[end-of-instance]
[assign] #14993 clause 2603 -2604
[assign] #15306 clause 2609 -2608
[assign] #15307 clause 2610 -2608
[assign] #14992 clause 2602 -2603
[assign] #14991 clause 2601 -2602
[assign] #14990 clause 2600 -2601
[assign] (not #14988) clause -2599 -2600
[assign] #14986 clause 2598 2599
[assign] (not #14984) clause -2597 2599
[new-match] 540726558 #8330 #8329 #6587 #14321 #14499 #3903 ; #14996
[new-match] 1347312039 #525 #247 #13945 ; #14999 (#244 #244)
[new-match] 3099759292 #251 #247 #13945 ; #14999 (#244 #244)
[inst-discovered] theory-solving 0x0 basic# ; #15015
[mk-app] #15308 = #15015 #15015
[instance] 0x0 #15308
[attach-enode] #15308 0
[end-of-instance]
[mk-app] #15308 or #14408 #15013 #15014
[instance] 1347312039 ; 5
[attach-enode] #15014 5
[assign] #15014 justification -1: 71 2606
[end-of-instance]
[mk-app] #15311 or #14396 #15013 #15018
[instance] 3099759292 ; 5
[attach-enode] #15017 5
[attach-enode] #15018 5
[assign] #15018 justification -1: 35 2606
[end-of-instance]
[eq-expl] #14978 root
[new-match] 681183850 #11183 #454 #14978 ; #15014
[new-match] 3117334482 #169 #168 #14978 ; #15017
[eq-expl] #13945 lit #15018 ; #15017
[eq-expl] #15017 root
[new-match] 2649803162 #509 #505 #14978 ; #14999 (#244 #244) (#13945 #15017)
[mk-app] #15312 or #4386 #15034
[instance] 681183850 ; 6
[assign] #15034 justification -1: 60
[end-of-instance]
[assign] #15033 clause 2619 -2620
[mk-app] #15313 <= #14978 #6750
[mk-app] #15314 >= #14978 #6750
[decide-and-or] #13995 #13988
[push] 19
[assign] (not #13987) decision axiom
[assign] #13983 clause 2340 2342
[assign] #13985 clause 2341 2342
[assign] (not #13989) clause -2343 -2341
[assign] #13991 clause 2344 -2341
[assign] #13993 clause 2345 2343
[push] 20
[assign] (not #13789) decision axiom
[assign] #13809 clause 2236 2235
[decide-and-or] #14695 #14682
[push] 21
[assign] (not #14681) decision axiom
[resolve-process] true
[resolve-lit] 0 #14681
[resolve-lit] 13 (not #14706)
[conflict] #14681
[pop] 1 22
[assign] #14681 axiom
[assign] (not #14686) clause -2394 -2392 2393 -2395
[assign] (not #14872) justification -1: -2394 1965 1965 1966 1962 1961 2267 2266
[new-match] 2280714649 #12713 #8310 #14685 #14321 ; #14686
[mk-app] #15310 if #14804 #14493 #14889
[mk-app] #15309 if #14803 #14491 #15310
[mk-app] #15302 if #14802 #14490 #15309
[mk-app] #15301 = #14811 #15302
[mk-app] #15300 or #15265 #15301
[instance] 2280714649 ; 5
[attach-enode] #14811 5
[attach-enode] #14488 5
[attach-enode] #14489 5
[attach-enode] #14491 5
[attach-enode] #14492 5
[assign] #15310 justification -1: 2423 -2564
[assign] #15309 justification -1: -2418 2629
[assign] #15302 justification -1: -2559 2630
[assign] #15301 justification -1: 1413
[end-of-instance]
[assign] #14811 clause 2623 -2632
[resolve-lit] 0 (not #14811)
[resolve-process] #14811
[resolve-lit] 0 #14686
[resolve-lit] 12 (not #13828)
[resolve-process] (not #14811)
[resolve-lit] 0 (not #15301)
[resolve-lit] 0 (not #15302)
[resolve-process] (not #15301)
[resolve-process] (not #15302)
[resolve-lit] 3 #14802
[resolve-lit] 0 (not #15309)
[resolve-process] (not #15309)
[resolve-lit] 12 #14803
[resolve-lit] 0 (not #15310)
[resolve-process] (not #15310)
[resolve-lit] 12 (not #14889)
[resolve-lit] 3 #14804
[conflict] #14686 (not #13828) #14802 (not #14889) #14804
[pop] 3 21
[assign] #14681 axiom
[assign] #14686 clause 2394 2559 -2163 -2423 2564
[resolve-process] true
[resolve-lit] 0 (not #14686)
[resolve-lit] 0 (not #14681)
[resolve-lit] 9 #14698
[resolve-lit] 0 (not #14695)
[resolve-process] (not #14686)
[resolve-lit] 0 #14802
[resolve-lit] 9 (not #13828)
[resolve-lit] 9 (not #14889)
[resolve-lit] 0 #14804
[resolve-process] (not #14681)
[resolve-process] (not #14695)
[resolve-lit] 0 #14504
[resolve-lit] 9 (not #14726)
[resolve-lit] 9 (not #13736)
[resolve-lit] 9 (not #3364)
[resolve-lit] 9 (not #13247)
[resolve-process] #14804
[resolve-lit] 9 #13799
[resolve-lit] 9 (not #3578)
[resolve-process] #14802
[resolve-lit] 9 #14021
[conflict] #14504 #14698 (not #13828) (not #14889) (not #14726) (not #13736) (not #3364) (not #13247) (not #3578)
[pop] 9 18
[attach-enode] #14802 0
[attach-enode] #14804 0
[assign] #14681 axiom
[assign] #14504 clause 2206 2393 -2163 -2423 -2458 -2387 -1885 -1838 -1863
[assign] #13785 clause 2297 -2206 -2321
[assign] #14571 clause 2299 -2297
[assign] #14120 clause 2300 -2299
[assign] (not #14802) justification -1: -2185 1863 1856 1856 2251 2266
[assign] (not #14804) justification -1: -2377 1863 2251 2266
[mk-app] #15281 = #14127 #14653
[attach-meaning] #363 arith (- 1)
[mk-app] #15282 + #14127 #14029
[mk-app] #15284 <= #15282 #334
[mk-app] #15285 >= #15282 #334
[assign] #15281 justification -1: 2248 2302 2300 2266 2268 1965
[attach-enode] #15281 0
[attach-enode] #15282 0
[assign] #15284 justification -1: 2561
[assign] #15285 justification -1: 2561
[assign] #14632 clause 2296 -2392 -2191 -2175 -2321 -2177 -2401
[assign] (not #14391) clause -2207 -2206 -2255 -2273 -2291
[assign] (not #14853) clause -2408 -2206 -2291 -2273 -2415
[assign] #14725 clause 2456 -2206 -2242 -2255 -2411 -2178
[assign] (not #14850) clause -2513 -2178 -2177 -2401 -2411 -2175
[assign] (not #14957) clause -2516 -2206 -2255 -2273 -2291 -2411 -2415 -2178
[assign] #14686 clause 2394 2560 2559 -2423 -2163
[assign] (not #14695) clause -2395 -2394 2393 -2392
[assign] #14704 clause 2397 2395
[assign] #14872 justification -1: 2394 1965 1965 1966 1962 1961 2267 2266
[new-match] 2280714649 #12713 #8310 #14685 #14321 ; #14686
[new-match] 2133480208 #8330 #8329 #8363 #14321 #14690 #3903 ; #14691
[mk-app] #15289 if #14804 #14493 #14889
[mk-app] #15290 if #14803 #14491 #15289
[mk-app] #15288 if #14802 #14490 #15290
[mk-app] #15287 = #14811 #15288
[mk-app] #15286 not #12713
[mk-app] #15283 or #15286 #15287
[instance] 2280714649 ; 5
[attach-enode] #14811 5
[attach-enode] #14488 5
[attach-enode] #7067 5
[attach-enode] #14489 5
[attach-enode] #14491 5
[attach-enode] #7059 5
[attach-enode] #14492 5
[assign] #15289 justification -1: 2423 -2560
[assign] #15290 justification -1: -2418 2570
[assign] #15288 justification -1: -2559 2571
[assign] #15287 justification -1: 1413
[end-of-instance]
[mk-app] #15280 or #14665 #14822
[instance] 2133480208 ; 5
[attach-enode] #14821 5
[attach-enode] #14822 5
[assign] #14822 justification -1: 1415
[end-of-instance]
[assign] #14811 clause 2564 -2573
[assign] #15056 justification -1: 2477 2254 2300 2302 2293 2574 2397 2398 2390 2387 1885 1839 1838 2494 1872 2265 2266 2267 1961 1965 2254 2253 2267 2268
[assign] #14440 justification -1: 2394 2267 1885 1839 1838 2300 2302 2293 2574 2397 2398 2390 2387 2265 2266 2267 1965 2254 2253 2268 1961 1965 1966 1962
[assign] #14721 justification -1: 2394 2267 1885 1839 1838 2300 2302 2293 2574 2397 2398 2390 2387 2265 2267 1965 2254 2253 2268 1961 1965 1966 1962 2300 2302 2248 2266
[assign] #14568 justification -1: 2302 2293 2574 1885 1839 1838 2300 2302 2293 2574 2397 2398 2390 2387 2265 2266 2267 1965 2268 1961 2254 2253 2267 1885 1839 1838 2254 2300 2302 2293 2574 2397 2398 2390 2387 1885 1839 1838 2300 2302 2293 2574 2397 2398 2390 2387
[mk-app] #15278 = #14036 #14653
[attach-meaning] #363 arith (- 1)
[mk-app] #15279 + #14036 #14029
[mk-app] #15277 <= #15279 #334
[mk-app] #15265 >= #15279 #334
[assign] #15278 justification -1: 2300 2302 2293 2574 2397 2398 2390 2387 2265 2266 2267 1961 2254 2253 2267 1965
[attach-enode] #15278 0
[attach-enode] #15279 0
[assign] #15277 justification -1: 2575
[assign] #15265 justification -1: 2575
[mk-app] #15276 = #3732 #15205
[attach-meaning] #363 arith (- 1)
[mk-app] #15303 + #3732 #15209
[mk-app] #15304 <= #15303 #334
[mk-app] #15306 >= #15303 #334
[assign] #15276 justification -1: 1885 1839 1838 2300 2302 2293 2574 2397 2398 2390 2387 2265 2266 2267 1961 1965 2254 2253 2267 2268
[attach-enode] #15276 0
[attach-enode] #15303 0
[assign] #15304 justification -1: 2578
[assign] #15306 justification -1: 2578
[new-match] 2104200956 #169 #168 #3740 ; #11142
[resolve-process] true
[resolve-lit] 0 (not #14095)
[resolve-lit] 0 (not #13257)
[resolve-lit] 0 (not #15265)
[resolve-process] (not #15265)
[resolve-lit] 0 (not #15278)
[resolve-process] (not #15278)
[resolve-lit] 0 (not #14120)
[resolve-lit] 0 (not #14822)
[resolve-lit] 0 (not #14704)
[resolve-lit] 0 (not #14700)
[resolve-lit] 0 (not #14674)
[resolve-lit] 0 (not #13736)
[resolve-process] (not #14822)
[resolve-process] (not #14704)
[resolve-lit] 0 #14695
[resolve-process] #14695
[resolve-lit] 0 (not #14686)
[resolve-lit] 0 #14698
[resolve-lit] 0 (not #14681)
[resolve-process] (not #14686)
[resolve-lit] 0 #14804
[resolve-lit] 0 #14802
[resolve-lit] 0 (not #14889)
[resolve-lit] 0 (not #13828)
[resolve-process] #14804
[resolve-lit] 0 #13799
[resolve-lit] 0 (not #3578)
[resolve-process] #14802
[resolve-lit] 0 #14021
[resolve-process] (not #14120)
[resolve-lit] 0 (not #14571)
[resolve-process] (not #14571)
[resolve-lit] 0 (not #13785)
[resolve-process] (not #13785)
[resolve-lit] 0 (not #14504)
[resolve-process] (not #14504)
[resolve-lit] 0 (not #14726)
[resolve-lit] 0 (not #3364)
[resolve-lit] 0 (not #13247)
[resolve-process] (not #14681)
[resolve-process] (not #14889)
[resolve-lit] 0 #14812
[resolve-lit] 0 #14805
[resolve-process] #14812
[resolve-lit] 0 (not #14496)
[resolve-lit] 0 #14494
[resolve-process] (not #14496)
[resolve-lit] 0 (not #14117)
[resolve-lit] 0 (not #15077)
[resolve-process] (not #15077)
[resolve-process] (not #14117)
[resolve-lit] 0 (not #14118)
[resolve-lit] 0 (not #3556)
[resolve-process] (not #14726)
[resolve-lit] 0 #14758
[resolve-process] (not #14118)
[resolve-lit] 0 #15075
[resolve-process] #14758
[resolve-lit] 0 (not #14747)
[resolve-lit] 0 (not #14761)
[resolve-process] #15075
[resolve-lit] 0 (not #14121)
[resolve-lit] 0 #15087
[resolve-process] (not #14747)
[resolve-lit] 0 (not #3570)
[resolve-lit] 0 (not #3586)
[resolve-process] (not #14121)
[resolve-lit] 0 (not #3564)
[resolve-process] (not #14761)
[resolve-lit] 0 #14763
[resolve-process] #14763
[resolve-process] #15087
[resolve-process] #14698
[resolve-lit] 0 (not #14087)
[resolve-lit] 0 (not #14707)
[resolve-process] #14494
[resolve-lit] 0 #3557
[resolve-process] #3557
[resolve-lit] 0 #726
[resolve-process] (not #3556)
[resolve-process] #726
[resolve-lit] 0 (not #696)
[resolve-lit] 0 (not #719)
[resolve-process] (not #696)
[resolve-lit] 0 #636
[resolve-process] (not #3564)
[resolve-process] (not #3570)
[resolve-process] #636
[resolve-lit] 0 (not #1117)
[resolve-lit] 0 (not #639)
[resolve-process] (not #1117)
[resolve-lit] 0 (not #3481)
[resolve-process] (not #3481)
[resolve-lit] 0 (not #14084)
[resolve-process] (not #13828)
[resolve-lit] 0 #13830
[resolve-process] (not #14087)
[resolve-lit] 0 #13820
[resolve-process] #13830
[resolve-process] #13820
[resolve-lit] 0 #13835
[resolve-process] #13835
[resolve-process] (not #719)
[resolve-process] (not #13257)
[resolve-process] (not #3364)
[resolve-process] #14805
[resolve-process] #13799
[resolve-process] (not #14707)
[resolve-lit] 0 (not #14701)
[resolve-process] (not #14701)
[resolve-process] (not #14700)
[resolve-lit] 0 (not #13684)
[resolve-process] (not #14674)
[resolve-process] (not #13684)
[resolve-process] (not #13736)
[resolve-lit] 0 (not #13744)
[resolve-lit] 0 (not #13732)
[resolve-process] (not #13744)
[resolve-lit] 0 (not #3640)
[resolve-process] (not #13732)
[resolve-process] #14021
[resolve-process] (not #639)
[resolve-lit] 0 #433
[resolve-process] (not #3578)
[resolve-process] (not #3586)
[resolve-process] (not #3640)
[resolve-process] #433
[resolve-lit] 0 (not #1136)
[resolve-process] (not #1136)
[resolve-lit] 0 (not #3647)
[resolve-process] (not #3647)
[resolve-lit] 0 (not #14039)
[resolve-lit] 0 (not #14033)
[resolve-lit] 0 (not #14048)
[resolve-process] (not #14039)
[resolve-lit] 0 (not #14059)
[resolve-process] (not #14095)
[resolve-lit] 0 (not #14122)
[resolve-process] (not #14059)
[resolve-process] (not #14122)
[resolve-process] (not #14048)
[resolve-lit] 0 (not #13810)
[resolve-process] (not #14084)
[resolve-process] (not #14033)
[resolve-process] (not #13810)
[resolve-lit] 0 (not #13249)
[resolve-process] (not #13249)
[resolve-lit] 0 #10999
[resolve-process] (not #13247)
[conflict] #10999
[pop] 1 9
[attach-enode] #14680 0
[attach-enode] #14696 0
[attach-enode] #14705 0
[attach-enode] #14709 0
[attach-enode] #14697 0
[attach-enode] #14718 0
[attach-enode] #14723 0
[attach-enode] #14744 0
[attach-enode] #14784 0
[attach-enode] #14895 0
[attach-enode] #14898 0
[attach-enode] #14914 0
[attach-enode] #13879 0
[attach-enode] #13764 0
[attach-enode] #14841 0
[attach-enode] #14851 0
[attach-enode] #14852 0
[attach-enode] #14858 0
[attach-enode] #13799 0
[attach-enode] #14116 0
[attach-enode] #14117 0
[attach-enode] #14801 0
[attach-enode] #14803 0
[attach-enode] #14805 0
[attach-enode] #14494 0
[attach-enode] #14496 0
[attach-enode] #14820 0
[attach-enode] #14777 0
[attach-enode] #14778 0
[attach-enode] #14792 0
[attach-enode] #15067 0
[attach-enode] #15068 0
[attach-enode] #15088 0
[attach-enode] #14774 0
[attach-enode] #15092 0
[attach-enode] #14025 0
[attach-enode] #15148 0
[attach-enode] #15143 0
[attach-meaning] #363 arith (- 1)
[attach-enode] #15205 0
[attach-enode] #15209 0
[attach-enode] #15210 0
[attach-enode] #15202 0
[attach-enode] #15236 0
[attach-enode] #15216 0
[attach-enode] #15217 0
[attach-enode] #14060 0
[attach-enode] #13740 0
[attach-enode] #13736 0
[attach-enode] #14913 0
[attach-enode] #14950 0
[attach-enode] #14819 0
[attach-enode] #14685 0
[attach-enode] #14686 0
[attach-enode] #14724 0
[attach-enode] #14719 0
[attach-enode] #14720 0
[attach-enode] #14721 0
[attach-enode] #14802 0
[attach-enode] #14804 0
[attach-enode] #14839 0
[attach-enode] #14961 0
[assign] (not #14805) axiom
[assign] (not #13835) axiom
[assign] #14681 axiom
[assign] #10999 axiom
[assign] (not #13820) clause -2159 2275 -2276
[assign] #13246 clause 1837 -1836
[assign] #13248 clause 1842 -1836
[assign] (not #13830) clause -2164 2159 -2165
[assign] #14087 clause 2173 2159 -2172 -2170 -2240 -2244
[assign] #13825 clause 2162 2164
[assign] #13828 clause 2163 2164
[assign] (not #14456) clause -2187 -2173 -2177 -2175 -2242
[assign] (not #14803) justification -1: -1855 1856 2251 2266
[attach-meaning] #363 arith (- 1)
[mk-app] #14122 + #1783 #529
[mk-app] #13952 <= #14122 #334
[mk-app] #13798 >= #14122 #334
[attach-enode] #14122 0
[assign] #13952 justification -1: 1842
[assign] #13798 justification -1: 1842
[mk-app] #13951 = #3872 #3873
[attach-meaning] #363 arith (- 1)
[mk-app] #14024 + #3872 #529
[mk-app] #13883 <= #14024 #334
[mk-app] #14028 >= #14024 #334
[assign] #13951 justification -1: 1839 1837
[attach-enode] #13951 0
[attach-enode] #14024 0
[assign] #13883 justification -1: 2417
[assign] #14028 justification -1: 2417
[mk-app] #14056 = #14203 #14680
[attach-meaning] #363 arith (- 1)
[assign] #14056 justification -1: 2267
[attach-enode] #14056 0
[assign] #14706 justification -1: 2420
[assign] #14707 justification -1: 2420
[mk-app] #13867 = #14127 #14718
[attach-meaning] #363 arith (- 1)
[assign] #13867 justification -1: 2268
[attach-enode] #13867 0
[assign] #14712 justification -1: 2421
[assign] #14786 justification -1: 2421
[mk-app] #14073 = #13916 #14895
[attach-meaning] #363 arith (- 1)
[mk-app] #14014 >= #14914 #334
[assign] #14073 justification -1: 2269
[attach-enode] #14073 0
[assign] #14915 justification -1: 2422
[assign] #14014 justification -1: 2422
[mk-app] #14081 = #13879 #14098
[attach-meaning] #363 arith (- 1)
[mk-app] #14093 <= #13764 #334
[assign] #14081 justification -1: 2264
[attach-enode] #14081 0
[assign] #14093 justification -1: 2424
[assign] #13756 justification -1: 2424
[mk-app] #13788 = #14379 #14841
[attach-meaning] #363 arith (- 1)
[assign] #13788 justification -1: 2270
[attach-enode] #13788 0
[assign] #14859 justification -1: 2426
[assign] #14779 justification -1: 2426
[assign] #14084 clause 2174 -2078 -2175
[assign] #14283 clause 2183 -1836 -2182 -2180
[assign] (not #14048) clause -2169 -1836 -2180 -2242
[assign] #14513 clause 2190 -2175 -2078 -2191
[assign] #14418 clause 2306 -1836 -2182 -2180 -2324
[assign] #14632 clause 2296 -2175 -2191 -2078 -2321
[assign] #14646 clause 2193 -2192 -2078 -2194
[eq-expl] #14777 root
[new-match] 830583092 #3884 #3879 #14777 #244 #120 ; #14778
[eq-expl] #14820 root
[new-match] 3290409242 #1462 #1461 #14820 ; #14777
[eq-expl] #3522 root
[new-match] 1829245385 #1622 #1621 #3522 ; #2975
[eq-expl] #14200 root
[new-match] 579950756 #565 #557 #14200 #3865 ; #15205
[eq-expl] #2908 root
[new-match] 1875605526 #565 #557 #2908 #3865 ; #11137
[eq-expl] #11137 root
[new-match] 1187533902 #169 #168 #11137 ; #11141
[new-match] 1755287860 #11858 #3908 #13823 #13816 #244 #120 ; #13827
[new-match] 472461204 #6732 #6731 #13823 #13816 ; #13824
[new-match] 1095615642 #2763 #2762 #3697 ; #13821
[eq-expl] #3696 lit #13892 ; #13891
[eq-expl] #13860 root
[eq-expl] #13891 cg (#3705 #13860) ; #13861
[eq-expl] #13861 root
[new-match] 3572552747 #2770 #2767 #3696 #244 #120 #203 #120 ; #13821 (#3697 #3697) #14027 (#3696 #13861) (#3696 #13861) (#7229 #7229)
[mk-app] #13709 or #13454 #14781 #14782
[instance] 830583092 ; 2
[attach-enode] #14780 2
[end-of-instance]
[mk-app] #13778 or #13445 #14856
[instance] 3290409242 ; 2
[attach-enode] #14855 2
[attach-enode] #14856 2
[assign] #14856 justification -1: 476
[end-of-instance]
[mk-app] #13772 or #13437 #14870
[instance] 1829245385 ; 1
[attach-enode] #14860 1
[attach-enode] #14870 1
[assign] #14870 justification -1: 500
[end-of-instance]
[mk-app] #13768 + #13456 #14200 #15205
[inst-discovered] theory-solving 0x0 arith# ; #15206
[mk-app] #13760 = #15206 #13768
[instance] 0x0 #13760
[attach-enode] #13760 0
[end-of-instance]
[attach-meaning] #363 arith (- 1)
[attach-meaning] #363 arith (- 1)
[mk-app] #13760 = #15210 #334
[mk-app] #14699 = #13768 #334
[inst-discovered] theory-solving 0x0 arith# ; #14699
[mk-app] #14703 = #14699 #13760
[instance] 0x0 #14703
[attach-enode] #14703 0
[end-of-instance]
[mk-app] #13768 or #13461 #13760
[instance] 579950756 ; 3
[attach-enode] #13760 3
[assign] #13760 justification -1: 77
[end-of-instance]
[mk-app] #14699 or #13461 #15009
[instance] 1875605526 ; 1
[attach-enode] #15009 1
[assign] #15009 justification -1: 77
[end-of-instance]
[mk-app] #14703 or #14221 #15203
[instance] 1187533902 ; 1
[attach-enode] #15203 1
[attach-meaning] #363 arith (- 1)
[assign] #15203 justification -1: 25
[end-of-instance]
[mk-app] #14704 not #6732
[mk-app] #14700 or #14704 #14770
[instance] 472461204 ; 2
[attach-enode] #14767 2
[attach-enode] #14768 2
[attach-enode] #14769 2
[attach-enode] #14770 2
[assign] #14770 justification -1: 1180
[end-of-instance]
[mk-app] #14701 = #13884 #13250
[mk-app] #14708 not #2763
[mk-app] #14713 or #14708 #14701
[instance] 1095615642 ; 2
[attach-enode] #13884 2
[attach-enode] #14701 2
[assign] #14701 justification -1: 668
[end-of-instance]
[mk-app] #14714 or #13927 #13942
[mk-app] #14773 not #2770
[mk-app] #14949 or #14773 #13927 #13942
[instance] 3572552747 ; 3
[attach-enode] #13926 3
[attach-enode] #13928 3
[mk-app] #15074 tuple%2./tuple%2/?0 #13928
[mk-app] #15075 tuple%2./tuple%2/?1 #13928
[mk-app] #15087 tuple%2./tuple%2 #15074 #15075
[attach-enode] #15074 3
[attach-enode] #15075 3
[attach-enode] #15087 3
[mk-app] #15129 tuple%2./tuple%2/?0 #15087
[mk-app] #15133 = #15074 #15129
[new-match] 0 datatype#220 datatype#217 #15074 #15075 ; #15087
[instance] 0 #15133
[attach-enode] #15129 3
[end-of-instance]
[mk-app] #15133 tuple%2./tuple%2/?1 #15087
[mk-app] #15145 = #15075 #15133
[new-match] 0 datatype#223 datatype#217 #15074 #15075 ; #15087
[instance] 0 #15145
[attach-enode] #15133 3
[end-of-instance]
[attach-enode] #13941 3
[attach-enode] #13942 3
[end-of-instance]
[assign] (not #14698) clause -2362 -2359 -2177 -2242 -2173 -2175
[assign] (not #14945) clause -2399 -2359 -2191 -2177 -2175
[assign] #14896 clause 2365 -2366 -2257
[assign] (not #13810) clause -2158 2169 -2170
[assign] #14435 clause 2308 -2306
[assign] #15212 clause 2389 -2431
[assign] #15213 clause 2392 -2431
[assign] #15012 clause 2402 -2432
[assign] #15035 clause 2400 -2432
[assign] #14942 clause 2401 -2433
[assign] #14938 clause 2403 -2433
[assign] #13781 clause 2233 2158
[assign] (not #13249) clause -1843 2158
[assign] #14406 clause 2309 -2308
[assign] #13926 justification -1: 2326 2331 2328 1851
[assign] (not #13247) justification -1: -1843 2252 2309 2311 2249 2266 2265 1842 1837
[mk-app] #14714 = #14036 #14576
[attach-meaning] #363 arith (- 1)
[mk-app] #15145 + #14036 #14432
[mk-app] #15147 <= #15145 #334
[mk-app] #15175 >= #15145 #334
[assign] #14714 justification -1: 2309 2311 2249 2266 2265 1965
[attach-enode] #14714 0
[attach-enode] #15145 0
[assign] #15147 justification -1: 2438
[assign] #15175 justification -1: 2438
[resolve-process] true
[resolve-lit] 0 (not #13798)
[resolve-lit] 0 (not #10999)
[resolve-lit] 0 #13820
[resolve-process] (not #13798)
[resolve-lit] 0 (not #13248)
[resolve-process] (not #13248)
[resolve-process] #13820
[resolve-lit] 0 #13835
[resolve-process] (not #10999)
[conflict] #13835
[pop] 1 8
[attach-enode] #14680 0
[attach-enode] #14696 0
[attach-enode] #14705 0
[attach-enode] #14709 0
[attach-enode] #14697 0
[attach-enode] #14718 0
[attach-enode] #14723 0
[attach-enode] #14744 0
[attach-enode] #14784 0
[attach-enode] #14895 0
[attach-enode] #14898 0
[attach-enode] #14914 0
[attach-enode] #13879 0
[attach-enode] #13764 0
[attach-enode] #14841 0
[attach-enode] #14851 0
[attach-enode] #14852 0
[attach-enode] #14858 0
[attach-enode] #13799 0
[attach-enode] #14116 0
[attach-enode] #14117 0
[attach-enode] #14801 0
[attach-enode] #14803 0
[attach-enode] #14805 0
[attach-enode] #14494 0
[attach-enode] #14496 0
[attach-enode] #14820 0
[attach-enode] #14777 0
[attach-enode] #14778 0
[attach-enode] #14792 0
[attach-enode] #15067 0
[attach-enode] #15068 0
[attach-enode] #15088 0
[attach-enode] #14774 0
[attach-enode] #15092 0
[attach-enode] #14025 0
[attach-enode] #15148 0
[attach-enode] #15143 0
[attach-meaning] #363 arith (- 1)
[attach-enode] #15205 0
[attach-enode] #15209 0
[attach-enode] #15210 0
[attach-enode] #15202 0
[attach-enode] #15236 0
[attach-enode] #15216 0
[attach-enode] #15217 0
[attach-enode] #14060 0
[attach-enode] #13740 0
[attach-enode] #13736 0
[attach-enode] #14913 0
[attach-enode] #14950 0
[attach-enode] #14819 0
[attach-enode] #14685 0
[attach-enode] #14686 0
[attach-enode] #14724 0
[attach-enode] #14719 0
[attach-enode] #14720 0
[attach-enode] #14721 0
[attach-enode] #14802 0
[attach-enode] #14804 0
[attach-enode] #14839 0
[attach-enode] #14961 0
[assign] #14084 clause 2174 -2078 -2175
[assign] #14513 clause 2190 -2175 -2078 -2191
[assign] #14632 clause 2296 -2175 -2191 -2078 -2321
[assign] #14646 clause 2193 -2192 -2078 -2194
[assign] (not #14805) axiom
[assign] (not #13835) axiom
[assign] #14681 axiom
[assign] #10999 axiom
[resolve-lit] 0 #13835
[resolve-process] (not #13835)
[conflict] #13835
[pop] 1 7
[attach-enode] #14680 0
[attach-enode] #14696 0
[attach-enode] #14705 0
[attach-enode] #14709 0
[attach-enode] #14697 0
[attach-enode] #14718 0
[attach-enode] #14723 0
[attach-enode] #14744 0
[attach-enode] #14784 0
[attach-enode] #14895 0
[attach-enode] #14898 0
[attach-enode] #14914 0
[attach-enode] #13879 0
[attach-enode] #13764 0
[attach-enode] #14841 0
[attach-enode] #14851 0
[attach-enode] #14852 0
[attach-enode] #14858 0
[attach-enode] #13799 0
[attach-enode] #14116 0
[attach-enode] #14117 0
[attach-enode] #14801 0
[attach-enode] #14803 0
[attach-enode] #14805 0
[attach-enode] #14494 0
[attach-enode] #14496 0
[attach-enode] #14820 0
[attach-enode] #14777 0
[attach-enode] #14778 0
[attach-enode] #14792 0
[attach-enode] #15067 0
[attach-enode] #15068 0
[attach-enode] #15088 0
[attach-enode] #14774 0
[attach-enode] #15092 0
[attach-enode] #14025 0
[attach-enode] #15148 0
[attach-enode] #15143 0
[attach-meaning] #363 arith (- 1)
[attach-enode] #15205 0
[attach-enode] #15209 0
[attach-enode] #15210 0
[attach-enode] #15202 0
[attach-enode] #15236 0
[attach-enode] #15216 0
[attach-enode] #15217 0
[attach-enode] #14060 0
[attach-enode] #13740 0
[attach-enode] #13736 0
[attach-enode] #14913 0
[attach-enode] #14950 0
[attach-enode] #14819 0
[attach-enode] #14685 0
[attach-enode] #14686 0
[attach-enode] #14724 0
[attach-enode] #14719 0
[attach-enode] #14720 0
[attach-enode] #14721 0
[attach-enode] #14802 0
[attach-enode] #14804 0
[attach-enode] #14839 0
[attach-enode] #14961 0
[assign] #14084 clause 2174 -2078 -2175
[assign] #14513 clause 2190 -2175 -2078 -2191
[assign] #14632 clause 2296 -2175 -2191 -2078 -2321
[assign] #14646 clause 2193 -2192 -2078 -2194
[assign] (not #14805) axiom
[assign] (not #13835) axiom
[assign] #14681 axiom
[assign] #10999 axiom
[resolve-lit] 0 #13835
[resolve-process] (not #13835)
[conflict] #13835
[pop] 1 6
[attach-enode] #14680 0
[attach-enode] #14696 0
[attach-enode] #14705 0
[attach-enode] #14709 0
[attach-enode] #14697 0
[attach-enode] #14718 0
[attach-enode] #14723 0
[attach-enode] #14744 0
[attach-enode] #14784 0
[attach-enode] #14895 0
[attach-enode] #14898 0
[attach-enode] #14914 0
[attach-enode] #13879 0
[attach-enode] #13764 0
[attach-enode] #14841 0
[attach-enode] #14851 0
[attach-enode] #14852 0
[attach-enode] #14858 0
[attach-enode] #13799 0
[attach-enode] #14116 0
[attach-enode] #14117 0
[attach-enode] #14801 0
[attach-enode] #14803 0
[attach-enode] #14805 0
[attach-enode] #14494 0
[attach-enode] #14496 0
[attach-enode] #14820 0
[attach-enode] #14777 0
[attach-enode] #14778 0
[attach-enode] #14792 0
[attach-enode] #15067 0
[attach-enode] #15068 0
[attach-enode] #15088 0
[attach-enode] #14774 0
[attach-enode] #15092 0
[attach-enode] #14025 0
[attach-enode] #15148 0
[attach-enode] #15143 0
[attach-meaning] #363 arith (- 1)
[attach-enode] #15205 0
[attach-enode] #15209 0
[attach-enode] #15210 0
[attach-enode] #15202 0
[attach-enode] #15236 0
[attach-enode] #15216 0
[attach-enode] #15217 0
[attach-enode] #14060 0
[attach-enode] #13740 0
[attach-enode] #13736 0
[attach-enode] #14913 0
[attach-enode] #14950 0
[attach-enode] #14819 0
[attach-enode] #14685 0
[attach-enode] #14686 0
[attach-enode] #14724 0
[attach-enode] #14719 0
[attach-enode] #14720 0
[attach-enode] #14721 0
[attach-enode] #14802 0
[attach-enode] #14804 0
[attach-enode] #14839 0
[attach-enode] #14961 0
[assign] #14084 clause 2174 -2078 -2175
[assign] #14513 clause 2190 -2175 -2078 -2191
[assign] #14632 clause 2296 -2175 -2191 -2078 -2321
[assign] #14646 clause 2193 -2192 -2078 -2194
[assign] (not #14805) axiom
[assign] (not #13835) axiom
[assign] #14681 axiom
[assign] #10999 axiom
[resolve-lit] 0 #13835
[resolve-process] (not #13835)
[conflict] #13835
[pop] 1 5
[attach-enode] #14680 0
[attach-enode] #14696 0
[attach-enode] #14705 0
[attach-enode] #14709 0
[attach-enode] #14697 0
[attach-enode] #14718 0
[attach-enode] #14723 0
[attach-enode] #14744 0
[attach-enode] #14784 0
[attach-enode] #14895 0
[attach-enode] #14898 0
[attach-enode] #14914 0
[attach-enode] #13879 0
[attach-enode] #13764 0
[attach-enode] #14841 0
[attach-enode] #14851 0
[attach-enode] #14852 0
[attach-enode] #14858 0
[attach-enode] #13799 0
[attach-enode] #14116 0
[attach-enode] #14117 0
[attach-enode] #14801 0
[attach-enode] #14803 0
[attach-enode] #14805 0
[attach-enode] #14494 0
[attach-enode] #14496 0
[attach-enode] #14820 0
[attach-enode] #14777 0
[attach-enode] #14778 0
[attach-enode] #14792 0
[attach-enode] #15067 0
[attach-enode] #15068 0
[attach-enode] #15088 0
[attach-enode] #14774 0
[attach-enode] #15092 0
[attach-enode] #14025 0
[attach-enode] #15148 0
[attach-enode] #15143 0
[attach-meaning] #363 arith (- 1)
[attach-enode] #15205 0
[attach-enode] #15209 0
[attach-enode] #15210 0
[attach-enode] #15202 0
[attach-enode] #15236 0
[attach-enode] #15216 0
[attach-enode] #15217 0
[attach-enode] #14060 0
[attach-enode] #13740 0
[attach-enode] #13736 0
[attach-enode] #14913 0
[attach-enode] #14950 0
[attach-enode] #14819 0
[attach-enode] #14685 0
[attach-enode] #14686 0
[attach-enode] #14724 0
[attach-enode] #14719 0
[attach-enode] #14720 0
[attach-enode] #14721 0
[attach-enode] #14802 0
[attach-enode] #14804 0
[attach-enode] #14839 0
[attach-enode] #14961 0
[assign] #14084 clause 2174 -2078 -2175
[assign] #14513 clause 2190 -2175 -2078 -2191
[assign] #14632 clause 2296 -2175 -2191 -2078 -2321
[assign] #14646 clause 2193 -2192 -2078 -2194
[assign] (not #14805) axiom
[assign] (not #13835) axiom
[assign] #14681 axiom
[assign] #10999 axiom
[resolve-lit] 0 #13835
[resolve-process] (not #13835)
[conflict] #13835
[pop] 1 4
[attach-enode] #14680 0
[attach-enode] #14696 0
[attach-enode] #14705 0
[attach-enode] #14709 0
[attach-enode] #14697 0
[attach-enode] #14718 0
[attach-enode] #14723 0
[attach-enode] #14744 0
[attach-enode] #14784 0
[attach-enode] #14895 0
[attach-enode] #14898 0
[attach-enode] #14914 0
[attach-enode] #13879 0
[attach-enode] #13764 0
[attach-enode] #14841 0
[attach-enode] #14851 0
[attach-enode] #14852 0
[attach-enode] #14858 0
[attach-enode] #13799 0
[attach-enode] #14116 0
[attach-enode] #14117 0
[attach-enode] #14801 0
[attach-enode] #14803 0
[attach-enode] #14805 0
[attach-enode] #14494 0
[attach-enode] #14496 0
[attach-enode] #14820 0
[attach-enode] #14777 0
[attach-enode] #14778 0
[attach-enode] #14792 0
[attach-enode] #15067 0
[attach-enode] #15068 0
[attach-enode] #15088 0
[attach-enode] #14774 0
[attach-enode] #15092 0
[attach-enode] #14025 0
[attach-enode] #15148 0
[attach-enode] #15143 0
[attach-meaning] #363 arith (- 1)
[attach-enode] #15205 0
[attach-enode] #15209 0
[attach-enode] #15210 0
[attach-enode] #15202 0
[attach-enode] #15236 0
[attach-enode] #15216 0
[attach-enode] #15217 0
[attach-enode] #14060 0
[attach-enode] #13740 0
[attach-enode] #13736 0
[attach-enode] #14913 0
[attach-enode] #14950 0
[attach-enode] #14819 0
[attach-enode] #14685 0
[attach-enode] #14686 0
[attach-enode] #14724 0
[attach-enode] #14719 0
[attach-enode] #14720 0
[attach-enode] #14721 0
[attach-enode] #14802 0
[attach-enode] #14804 0
[attach-enode] #14839 0
[attach-enode] #14961 0
[assign] #14084 clause 2174 -2078 -2175
[assign] #14513 clause 2190 -2175 -2078 -2191
[assign] #14632 clause 2296 -2175 -2191 -2078 -2321
[assign] #14646 clause 2193 -2192 -2078 -2194
[assign] (not #14805) axiom
[assign] (not #13835) axiom
[assign] #14681 axiom
[assign] #10999 axiom
[resolve-lit] 0 #13835
[resolve-process] (not #13835)
[conflict] #13835
[pop] 1 3
[attach-enode] #14680 0
[attach-enode] #14696 0
[attach-enode] #14705 0
[attach-enode] #14709 0
[attach-enode] #14697 0
[attach-enode] #14718 0
[attach-enode] #14723 0
[attach-enode] #14744 0
[attach-enode] #14784 0
[attach-enode] #14895 0
[attach-enode] #14898 0
[attach-enode] #14914 0
[attach-enode] #13879 0
[attach-enode] #13764 0
[attach-enode] #14841 0
[attach-enode] #14851 0
[attach-enode] #14852 0
[attach-enode] #14858 0
[attach-enode] #13799 0
[attach-enode] #14116 0
[attach-enode] #14117 0
[attach-enode] #14801 0
[attach-enode] #14803 0
[attach-enode] #14805 0
[attach-enode] #14494 0
[attach-enode] #14496 0
[attach-enode] #14820 0
[attach-enode] #14777 0
[attach-enode] #14778 0
[attach-enode] #14792 0
[attach-enode] #15067 0
[attach-enode] #15068 0
[attach-enode] #15088 0
[attach-enode] #14774 0
[attach-enode] #15092 0
[attach-enode] #14025 0
[attach-enode] #15148 0
[attach-enode] #15143 0
[attach-meaning] #363 arith (- 1)
[attach-enode] #15205 0
[attach-enode] #15209 0
[attach-enode] #15210 0
[attach-enode] #15202 0
[attach-enode] #15236 0
[attach-enode] #15216 0
[attach-enode] #15217 0
[attach-enode] #14060 0
[attach-enode] #13740 0
[attach-enode] #13736 0
[attach-enode] #14913 0
[attach-enode] #14950 0
[attach-enode] #14819 0
[attach-enode] #14685 0
[attach-enode] #14686 0
[attach-enode] #14724 0
[attach-enode] #14719 0
[attach-enode] #14720 0
[attach-enode] #14721 0
[attach-enode] #14802 0
[attach-enode] #14804 0
[attach-enode] #14839 0
[attach-enode] #14961 0
[assign] #14084 clause 2174 -2078 -2175
[assign] #14513 clause 2190 -2175 -2078 -2191
[assign] #14632 clause 2296 -2175 -2191 -2078 -2321
[assign] #14646 clause 2193 -2192 -2078 -2194
[assign] (not #14805) axiom
[assign] (not #13835) axiom
[assign] #14681 axiom
[assign] #10999 axiom
[resolve-lit] 0 #13835
[resolve-process] (not #13835)
[conflict] #13835
[pop] 1 2
[attach-enode] #14680 0
[attach-enode] #14696 0
[attach-enode] #14705 0
[attach-enode] #14709 0
[attach-enode] #14697 0
[attach-enode] #14718 0
[attach-enode] #14723 0
[attach-enode] #14744 0
[attach-enode] #14784 0
[attach-enode] #14895 0
[attach-enode] #14898 0
[attach-enode] #14914 0
[attach-enode] #13879 0
[attach-enode] #13764 0
[attach-enode] #14841 0
[attach-enode] #14851 0
[attach-enode] #14852 0
[attach-enode] #14858 0
[attach-enode] #13799 0
[attach-enode] #14116 0
[attach-enode] #14117 0
[attach-enode] #14801 0
[attach-enode] #14803 0
[attach-enode] #14805 0
[attach-enode] #14494 0
[attach-enode] #14496 0
[attach-enode] #14820 0
[attach-enode] #14777 0
[attach-enode] #14778 0
[attach-enode] #14792 0
[attach-enode] #15067 0
[attach-enode] #15068 0
[attach-enode] #15088 0
[attach-enode] #14774 0
[attach-enode] #15092 0
[attach-enode] #14025 0
[attach-enode] #15148 0
[attach-enode] #15143 0
[attach-meaning] #363 arith (- 1)
[attach-enode] #15205 0
[attach-enode] #15209 0
[attach-enode] #15210 0
[attach-enode] #15202 0
[attach-enode] #15236 0
[attach-enode] #15216 0
[attach-enode] #15217 0
[attach-enode] #14060 0
[attach-enode] #13740 0
[attach-enode] #13736 0
[attach-enode] #14913 0
[attach-enode] #14950 0
[attach-enode] #14819 0
[attach-enode] #14685 0
[attach-enode] #14686 0
[attach-enode] #14724 0
[attach-enode] #14719 0
[attach-enode] #14720 0
[attach-enode] #14721 0
[attach-enode] #14802 0
[attach-enode] #14804 0
[attach-enode] #14839 0
[attach-enode] #14961 0
[assign] #14084 clause 2174 -2078 -2175
[assign] #14513 clause 2190 -2175 -2078 -2191
[assign] #14632 clause 2296 -2175 -2191 -2078 -2321
[assign] #14646 clause 2193 -2192 -2078 -2194
[assign] (not #14805) axiom
[assign] (not #13835) axiom
[assign] #14681 axiom
[assign] #10999 axiom
[pop] 1 1
[eof]
