verus! {
// RFC 7541 appendix B, built from its code lengths (canonical code), independently of the code; 256 is EOS
#[verifier::opaque]
pub open spec fn hlen(i: int) -> u32 { if i < 128 { if i < 64 { if i < 32 { if i < 16 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 13 } else { 23 } } else { 28 } } else { 28 } } else { if i < 12 { if i < 10 { if i < 9 { 28 } else { 24 } } else { if i < 11 { 30 } else { 28 } } } else { if i < 14 { if i < 13 { 28 } else { 30 } } else { 28 } } } } else { if i < 24 { if i < 20 { 28 } else { if i < 22 { 28 } else { if i < 23 { 30 } else { 28 } } } } else { 28 } } } else { if i < 48 { if i < 40 { if i < 36 { if i < 34 { if i < 33 { 6 } else { 10 } } else { if i < 35 { 10 } else { 12 } } } else { if i < 38 { if i < 37 { 13 } else { 6 } } else { if i < 39 { 8 } else { 11 } } } } else { if i < 44 { if i < 42 { 10 } else { if i < 43 { 8 } else { 11 } } } else { if i < 46 { if i < 45 { 8 } else { 6 } } else { 6 } } } } else { if i < 56 { if i < 52 { if i < 50 { 5 } else { if i < 51 { 5 } else { 6 } } } else { 6 } } else { if i < 60 { if i < 58 { 6 } else { if i < 59 { 7 } else { 8 } } } else { if i < 62 { if i < 61 { 15 } else { 6 } } else { if i < 63 { 12 } else { 10 } } } } } } } else { if i < 96 { if i < 80 { if i < 72 { if i < 68 { if i < 66 { if i < 65 { 13 } else { 6 } } else { 7 } } else { 7 } } else { 7 } } else { if i < 88 { 7 } else { if i < 92 { if i < 90 { if i < 89 { 8 } else { 7 } } else { if i < 91 { 8 } else { 13 } } } else { if i < 94 { if i < 93 { 19 } else { 13 } } else { if i < 95 { 14 } else { 6 } } } } } } else { if i < 112 { if i < 104 { if i < 100 { if i < 98 { if i < 97 { 15 } else { 5 } } else { if i < 99 { 6 } else { 5 } } } else { if i < 102 { if i < 101 { 6 } else { 5 } } else { 6 } } } else { if i < 108 { if i < 106 { if i < 105 { 6 } else { 5 } } else { 7 } } else { if i < 110 { 6 } else { if i < 111 { 6 } else { 5 } } } } } else { if i < 120 { if i < 116 { if i < 114 { if i < 113 { 6 } else { 7 } } else { if i < 115 { 6 } else { 5 } } } else { if i < 118 { if i < 117 { 5 } else { 6 } } else { 7 } } } else { if i < 124 { if i < 122 { 7 } else { if i < 123 { 7 } else { 15 } } } else { if i < 126 { if i < 125 { 11 } else { 14 } } else { if i < 127 { 13 } else { 28 } } } } } } } } else { if i < 192 { if i < 160 { if i < 144 { if i < 136 { if i < 132 { if i < 130 { if i < 129 { 20 } else { 22 } } else { 20 } } else { if i < 134 { 22 } else { if i < 135 { 22 } else { 23 } } } } else { if i < 140 { if i < 138 { if i < 137 { 22 } else { 23 } } else { 23 } } else { if i < 142 { 23 } else { if i < 143 { 24 } else { 23 } } } } } else { if i < 152 { if i < 148 { if i < 146 { 24 } else { if i < 147 { 22 } else { 23 } } } else { if i < 150 { if i < 149 { 24 } else { 23 } } else { 23 } } } else { if i < 156 { if i < 154 { if i < 153 { 23 } else { 21 } } else { if i < 155 { 22 } else { 23 } } } else { if i < 158 { if i < 157 { 22 } else { 23 } } else { if i < 159 { 23 } else { 24 } } } } } } else { if i < 176 { if i < 168 { if i < 164 { if i < 162 { if i < 161 { 22 } else { 21 } } else { if i < 163 { 20 } else { 22 } } } else { if i < 166 { if i < 165 { 22 } else { 23 } } else { if i < 167 { 23 } else { 21 } } } } else { if i < 172 { if i < 170 { if i < 169 { 23 } else { 22 } } else { if i < 171 { 22 } else { 24 } } } else { if i < 174 { if i < 173 { 21 } else { 22 } } else { 23 } } } } else { if i < 184 { if i < 180 { if i < 178 { 21 } else { if i < 179 { 22 } else { 21 } } } else { if i < 182 { if i < 181 { 23 } else { 22 } } else { 23 } } } else { if i < 188 { if i < 186 { if i < 185 { 20 } else { 22 } } else { 22 } } else { if i < 190 { if i < 189 { 23 } else { 22 } } else { if i < 191 { 22 } else { 23 } } } } } } } else { if i < 224 { if i < 208 { if i < 200 { if i < 196 { if i < 194 { 26 } else { if i < 195 { 20 } else { 19 } } } else { if i < 198 { if i < 197 { 22 } else { 23 } } else { if i < 199 { 22 } else { 25 } } } } else { if i < 204 { if i < 202 { 26 } else { if i < 203 { 26 } else { 27 } } } else { if i < 206 { if i < 205 { 27 } else { 26 } } else { if i < 207 { 24 } else { 25 } } } } } else { if i < 216 { if i < 212 { if i < 210 { if i < 209 { 19 } else { 21 } } else { if i < 211 { 26 } else { 27 } } } else { if i < 214 { if i < 213 { 27 } else { 26 } } else { if i < 215 { 27 } else { 24 } } } } else { if i < 220 { if i < 218 { 21 } else { 26 } } else { if i < 222 { if i < 221 { 28 } else { 27 } } else { 27 } } } } } else { if i < 240 { if i < 232 { if i < 228 { if i < 226 { if i < 225 { 20 } else { 24 } } else { if i < 227 { 20 } else { 21 } } } else { if i < 230 { if i < 229 { 22 } else { 21 } } else { if i < 231 { 21 } else { 23 } } } } else { if i < 236 { if i < 234 { 22 } else { 25 } } else { if i < 238 { 24 } else { if i < 239 { 26 } else { 23 } } } } } else { if i < 248 { if i < 244 { if i < 242 { if i < 241 { 26 } else { 27 } } else { 26 } } else { 27 } } else { if i < 252 { if i < 250 { if i < 249 { 27 } else { 28 } } else { 27 } } else { if i < 254 { 27 } else { if i < 255 { 27 } else { if i < 256 { 26 } else { 30 } } } } } } } } } }
#[verifier::opaque]
pub open spec fn hcode(i: int) -> u32 { if i < 128 { if i < 64 { if i < 32 { if i < 16 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 8184 } else { 8388568 } } else { if i < 3 { 268435426 } else { 268435427 } } } else { if i < 6 { if i < 5 { 268435428 } else { 268435429 } } else { if i < 7 { 268435430 } else { 268435431 } } } } else { if i < 12 { if i < 10 { if i < 9 { 268435432 } else { 16777194 } } else { if i < 11 { 1073741820 } else { 268435433 } } } else { if i < 14 { if i < 13 { 268435434 } else { 1073741821 } } else { if i < 15 { 268435435 } else { 268435436 } } } } } else { if i < 24 { if i < 20 { if i < 18 { if i < 17 { 268435437 } else { 268435438 } } else { if i < 19 { 268435439 } else { 268435440 } } } else { if i < 22 { if i < 21 { 268435441 } else { 268435442 } } else { if i < 23 { 1073741822 } else { 268435443 } } } } else { if i < 28 { if i < 26 { if i < 25 { 268435444 } else { 268435445 } } else { if i < 27 { 268435446 } else { 268435447 } } } else { if i < 30 { if i < 29 { 268435448 } else { 268435449 } } else { if i < 31 { 268435450 } else { 268435451 } } } } } } else { if i < 48 { if i < 40 { if i < 36 { if i < 34 { if i < 33 { 20 } else { 1016 } } else { if i < 35 { 1017 } else { 4090 } } } else { if i < 38 { if i < 37 { 8185 } else { 21 } } else { if i < 39 { 248 } else { 2042 } } } } else { if i < 44 { if i < 42 { if i < 41 { 1018 } else { 1019 } } else { if i < 43 { 249 } else { 2043 } } } else { if i < 46 { if i < 45 { 250 } else { 22 } } else { if i < 47 { 23 } else { 24 } } } } } else { if i < 56 { if i < 52 { if i < 50 { if i < 49 { 0 } else { 1 } } else { if i < 51 { 2 } else { 25 } } } else { if i < 54 { if i < 53 { 26 } else { 27 } } else { if i < 55 { 28 } else { 29 } } } } else { if i < 60 { if i < 58 { if i < 57 { 30 } else { 31 } } else { if i < 59 { 92 } else { 251 } } } else { if i < 62 { if i < 61 { 32764 } else { 32 } } else { if i < 63 { 4091 } else { 1020 } } } } } } } else { if i < 96 { if i < 80 { if i < 72 { if i < 68 { if i < 66 { if i < 65 { 8186 } else { 33 } } else { if i < 67 { 93 } else { 94 } } } else { if i < 70 { if i < 69 { 95 } else { 96 } } else { if i < 71 { 97 } else { 98 } } } } else { if i < 76 { if i < 74 { if i < 73 { 99 } else { 100 } } else { if i < 75 { 101 } else { 102 } } } else { if i < 78 { if i < 77 { 103 } else { 104 } } else { if i < 79 { 105 } else { 106 } } } } } else { if i < 88 { if i < 84 { if i < 82 { if i < 81 { 107 } else { 108 } } else { if i < 83 { 109 } else { 110 } } } else { if i < 86 { if i < 85 { 111 } else { 112 } } else { if i < 87 { 113 } else { 114 } } } } else { if i < 92 { if i < 90 { if i < 89 { 252 } else { 115 } } else { if i < 91 { 253 } else { 8187 } } } else { if i < 94 { if i < 93 { 524272 } else { 8188 } } else { if i < 95 { 16380 } else { 34 } } } } } } else { if i < 112 { if i < 104 { if i < 100 { if i < 98 { if i < 97 { 32765 } else { 3 } } else { if i < 99 { 35 } else { 4 } } } else { if i < 102 { if i < 101 { 36 } else { 5 } } else { if i < 103 { 37 } else { 38 } } } } else { if i < 108 { if i < 106 { if i < 105 { 39 } else { 6 } } else { if i < 107 { 116 } else { 117 } } } else { if i < 110 { if i < 109 { 40 } else { 41 } } else { if i < 111 { 42 } else { 7 } } } } } else { if i < 120 { if i < 116 { if i < 114 { if i < 113 { 43 } else { 118 } } else { if i < 115 { 44 } else { 8 } } } else { if i < 118 { if i < 117 { 9 } else { 45 } } else { if i < 119 { 119 } else { 120 } } } } else { if i < 124 { if i < 122 { if i < 121 { 121 } else { 122 } } else { if i < 123 { 123 } else { 32766 } } } else { if i < 126 { if i < 125 { 2044 } else { 16381 } } else { if i < 127 { 8189 } else { 268435452 } } } } } } } } else { if i < 192 { if i < 160 { if i < 144 { if i < 136 { if i < 132 { if i < 130 { if i < 129 { 1048550 } else { 4194258 } } else { if i < 131 { 1048551 } else { 1048552 } } } else { if i < 134 { if i < 133 { 4194259 } else { 4194260 } } else { if i < 135 { 4194261 } else { 8388569 } } } } else { if i < 140 { if i < 138 { if i < 137 { 4194262 } else { 8388570 } } else { if i < 139 { 8388571 } else { 8388572 } } } else { if i < 142 { if i < 141 { 8388573 } else { 8388574 } } else { if i < 143 { 16777195 } else { 8388575 } } } } } else { if i < 152 { if i < 148 { if i < 146 { if i < 145 { 16777196 } else { 16777197 } } else { if i < 147 { 4194263 } else { 8388576 } } } else { if i < 150 { if i < 149 { 16777198 } else { 8388577 } } else { if i < 151 { 8388578 } else { 8388579 } } } } else { if i < 156 { if i < 154 { if i < 153 { 8388580 } else { 2097116 } } else { if i < 155 { 4194264 } else { 8388581 } } } else { if i < 158 { if i < 157 { 4194265 } else { 8388582 } } else { if i < 159 { 8388583 } else { 16777199 } } } } } } else { if i < 176 { if i < 168 { if i < 164 { if i < 162 { if i < 161 { 4194266 } else { 2097117 } } else { if i < 163 { 1048553 } else { 4194267 } } } else { if i < 166 { if i < 165 { 4194268 } else { 8388584 } } else { if i < 167 { 8388585 } else { 2097118 } } } } else { if i < 172 { if i < 170 { if i < 169 { 8388586 } else { 4194269 } } else { if i < 171 { 4194270 } else { 16777200 } } } else { if i < 174 { if i < 173 { 2097119 } else { 4194271 } } else { if i < 175 { 8388587 } else { 8388588 } } } } } else { if i < 184 { if i < 180 { if i < 178 { if i < 177 { 2097120 } else { 2097121 } } else { if i < 179 { 4194272 } else { 2097122 } } } else { if i < 182 { if i < 181 { 8388589 } else { 4194273 } } else { if i < 183 { 8388590 } else { 8388591 } } } } else { if i < 188 { if i < 186 { if i < 185 { 1048554 } else { 4194274 } } else { if i < 187 { 4194275 } else { 4194276 } } } else { if i < 190 { if i < 189 { 8388592 } else { 4194277 } } else { if i < 191 { 4194278 } else { 8388593 } } } } } } } else { if i < 224 { if i < 208 { if i < 200 { if i < 196 { if i < 194 { if i < 193 { 67108832 } else { 67108833 } } else { if i < 195 { 1048555 } else { 524273 } } } else { if i < 198 { if i < 197 { 4194279 } else { 8388594 } } else { if i < 199 { 4194280 } else { 33554412 } } } } else { if i < 204 { if i < 202 { if i < 201 { 67108834 } else { 67108835 } } else { if i < 203 { 67108836 } else { 134217694 } } } else { if i < 206 { if i < 205 { 134217695 } else { 67108837 } } else { if i < 207 { 16777201 } else { 33554413 } } } } } else { if i < 216 { if i < 212 { if i < 210 { if i < 209 { 524274 } else { 2097123 } } else { if i < 211 { 67108838 } else { 134217696 } } } else { if i < 214 { if i < 213 { 134217697 } else { 67108839 } } else { if i < 215 { 134217698 } else { 16777202 } } } } else { if i < 220 { if i < 218 { if i < 217 { 2097124 } else { 2097125 } } else { if i < 219 { 67108840 } else { 67108841 } } } else { if i < 222 { if i < 221 { 268435453 } else { 134217699 } } else { if i < 223 { 134217700 } else { 134217701 } } } } } } else { if i < 240 { if i < 232 { if i < 228 { if i < 226 { if i < 225 { 1048556 } else { 16777203 } } else { if i < 227 { 1048557 } else { 2097126 } } } else { if i < 230 { if i < 229 { 4194281 } else { 2097127 } } else { if i < 231 { 2097128 } else { 8388595 } } } } else { if i < 236 { if i < 234 { if i < 233 { 4194282 } else { 4194283 } } else { if i < 235 { 33554414 } else { 33554415 } } } else { if i < 238 { if i < 237 { 16777204 } else { 16777205 } } else { if i < 239 { 67108842 } else { 8388596 } } } } } else { if i < 248 { if i < 244 { if i < 242 { if i < 241 { 67108843 } else { 134217702 } } else { if i < 243 { 67108844 } else { 67108845 } } } else { if i < 246 { if i < 245 { 134217703 } else { 134217704 } } else { if i < 247 { 134217705 } else { 134217706 } } } } else { if i < 252 { if i < 250 { if i < 249 { 134217707 } else { 268435454 } } else { if i < 251 { 134217708 } else { 134217709 } } } else { if i < 254 { if i < 253 { 134217710 } else { 134217711 } } else { if i < 255 { 134217712 } else { if i < 256 { 67108846 } else { 1073741823 } } } } } } } } } }
#[verifier::opaque]
pub open spec fn hrank(i: int) -> int { if i < 128 { if i < 64 { if i < 32 { if i < 16 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 84 } else { 145 } } else { if i < 3 { 224 } else { 225 } } } else { if i < 6 { if i < 5 { 226 } else { 227 } } else { if i < 7 { 228 } else { 229 } } } } else { if i < 12 { if i < 10 { if i < 9 { 230 } else { 174 } } else { if i < 11 { 253 } else { 231 } } } else { if i < 14 { if i < 13 { 232 } else { 254 } } else { if i < 15 { 233 } else { 234 } } } } } else { if i < 24 { if i < 20 { if i < 18 { if i < 17 { 235 } else { 236 } } else { if i < 19 { 237 } else { 238 } } } else { if i < 22 { if i < 21 { 239 } else { 240 } } else { if i < 23 { 255 } else { 241 } } } } else { if i < 28 { if i < 26 { if i < 25 { 242 } else { 243 } } else { if i < 27 { 244 } else { 245 } } } else { if i < 30 { if i < 29 { 246 } else { 247 } } else { if i < 31 { 248 } else { 249 } } } } } } else { if i < 48 { if i < 40 { if i < 36 { if i < 34 { if i < 33 { 10 } else { 74 } } else { if i < 35 { 75 } else { 82 } } } else { if i < 38 { if i < 37 { 85 } else { 11 } } else { if i < 39 { 68 } else { 79 } } } } else { if i < 44 { if i < 42 { if i < 41 { 76 } else { 77 } } else { if i < 43 { 69 } else { 80 } } } else { if i < 46 { if i < 45 { 70 } else { 12 } } else { if i < 47 { 13 } else { 14 } } } } } else { if i < 56 { if i < 52 { if i < 50 { if i < 49 { 0 } else { 1 } } else { if i < 51 { 2 } else { 15 } } } else { if i < 54 { if i < 53 { 16 } else { 17 } } else { if i < 55 { 18 } else { 19 } } } } else { if i < 60 { if i < 58 { if i < 57 { 20 } else { 21 } } else { if i < 59 { 36 } else { 71 } } } else { if i < 62 { if i < 61 { 92 } else { 22 } } else { if i < 63 { 83 } else { 78 } } } } } } } else { if i < 96 { if i < 80 { if i < 72 { if i < 68 { if i < 66 { if i < 65 { 86 } else { 23 } } else { if i < 67 { 37 } else { 38 } } } else { if i < 70 { if i < 69 { 39 } else { 40 } } else { if i < 71 { 41 } else { 42 } } } } else { if i < 76 { if i < 74 { if i < 73 { 43 } else { 44 } } else { if i < 75 { 45 } else { 46 } } } else { if i < 78 { if i < 77 { 47 } else { 48 } } else { if i < 79 { 49 } else { 50 } } } } } else { if i < 88 { if i < 84 { if i < 82 { if i < 81 { 51 } else { 52 } } else { if i < 83 { 53 } else { 54 } } } else { if i < 86 { if i < 85 { 55 } else { 56 } } else { if i < 87 { 57 } else { 58 } } } } else { if i < 92 { if i < 90 { if i < 89 { 72 } else { 59 } } else { if i < 91 { 73 } else { 87 } } } else { if i < 94 { if i < 93 { 95 } else { 88 } } else { if i < 95 { 90 } else { 24 } } } } } } else { if i < 112 { if i < 104 { if i < 100 { if i < 98 { if i < 97 { 93 } else { 3 } } else { if i < 99 { 25 } else { 4 } } } else { if i < 102 { if i < 101 { 26 } else { 5 } } else { if i < 103 { 27 } else { 28 } } } } else { if i < 108 { if i < 106 { if i < 105 { 29 } else { 6 } } else { if i < 107 { 60 } else { 61 } } } else { if i < 110 { if i < 109 { 30 } else { 31 } } else { if i < 111 { 32 } else { 7 } } } } } else { if i < 120 { if i < 116 { if i < 114 { if i < 113 { 33 } else { 62 } } else { if i < 115 { 34 } else { 8 } } } else { if i < 118 { if i < 117 { 9 } else { 35 } } else { if i < 119 { 63 } else { 64 } } } } else { if i < 124 { if i < 122 { if i < 121 { 65 } else { 66 } } else { if i < 123 { 67 } else { 94 } } } else { if i < 126 { if i < 125 { 81 } else { 91 } } else { if i < 127 { 89 } else { 250 } } } } } } } } else { if i < 192 { if i < 160 { if i < 144 { if i < 136 { if i < 132 { if i < 130 { if i < 129 { 98 } else { 119 } } else { if i < 131 { 99 } else { 100 } } } else { if i < 134 { if i < 133 { 120 } else { 121 } } else { if i < 135 { 122 } else { 146 } } } } else { if i < 140 { if i < 138 { if i < 137 { 123 } else { 147 } } else { if i < 139 { 148 } else { 149 } } } else { if i < 142 { if i < 141 { 150 } else { 151 } } else { if i < 143 { 175 } else { 152 } } } } } else { if i < 152 { if i < 148 { if i < 146 { if i < 145 { 176 } else { 177 } } else { if i < 147 { 124 } else { 153 } } } else { if i < 150 { if i < 149 { 178 } else { 154 } } else { if i < 151 { 155 } else { 156 } } } } else { if i < 156 { if i < 154 { if i < 153 { 157 } else { 106 } } else { if i < 155 { 125 } else { 158 } } } else { if i < 158 { if i < 157 { 126 } else { 159 } } else { if i < 159 { 160 } else { 179 } } } } } } else { if i < 176 { if i < 168 { if i < 164 { if i < 162 { if i < 161 { 127 } else { 107 } } else { if i < 163 { 101 } else { 128 } } } else { if i < 166 { if i < 165 { 129 } else { 161 } } else { if i < 167 { 162 } else { 108 } } } } else { if i < 172 { if i < 170 { if i < 169 { 163 } else { 130 } } else { if i < 171 { 131 } else { 180 } } } else { if i < 174 { if i < 173 { 109 } else { 132 } } else { if i < 175 { 164 } else { 165 } } } } } else { if i < 184 { if i < 180 { if i < 178 { if i < 177 { 110 } else { 111 } } else { if i < 179 { 133 } else { 112 } } } else { if i < 182 { if i < 181 { 166 } else { 134 } } else { if i < 183 { 167 } else { 168 } } } } else { if i < 188 { if i < 186 { if i < 185 { 102 } else { 135 } } else { if i < 187 { 136 } else { 137 } } } else { if i < 190 { if i < 189 { 169 } else { 138 } } else { if i < 191 { 139 } else { 170 } } } } } } } else { if i < 224 { if i < 208 { if i < 200 { if i < 196 { if i < 194 { if i < 193 { 190 } else { 191 } } else { if i < 195 { 103 } else { 96 } } } else { if i < 198 { if i < 197 { 140 } else { 171 } } else { if i < 199 { 141 } else { 186 } } } } else { if i < 204 { if i < 202 { if i < 201 { 192 } else { 193 } } else { if i < 203 { 194 } else { 205 } } } else { if i < 206 { if i < 205 { 206 } else { 195 } } else { if i < 207 { 181 } else { 187 } } } } } else { if i < 216 { if i < 212 { if i < 210 { if i < 209 { 97 } else { 113 } } else { if i < 211 { 196 } else { 207 } } } else { if i < 214 { if i < 213 { 208 } else { 197 } } else { if i < 215 { 209 } else { 182 } } } } else { if i < 220 { if i < 218 { if i < 217 { 114 } else { 115 } } else { if i < 219 { 198 } else { 199 } } } else { if i < 222 { if i < 221 { 251 } else { 210 } } else { if i < 223 { 211 } else { 212 } } } } } } else { if i < 240 { if i < 232 { if i < 228 { if i < 226 { if i < 225 { 104 } else { 183 } } else { if i < 227 { 105 } else { 116 } } } else { if i < 230 { if i < 229 { 142 } else { 117 } } else { if i < 231 { 118 } else { 172 } } } } else { if i < 236 { if i < 234 { if i < 233 { 143 } else { 144 } } else { if i < 235 { 188 } else { 189 } } } else { if i < 238 { if i < 237 { 184 } else { 185 } } else { if i < 239 { 200 } else { 173 } } } } } else { if i < 248 { if i < 244 { if i < 242 { if i < 241 { 201 } else { 213 } } else { if i < 243 { 202 } else { 203 } } } else { if i < 246 { if i < 245 { 214 } else { 215 } } else { if i < 247 { 216 } else { 217 } } } } else { if i < 252 { if i < 250 { if i < 249 { 218 } else { 252 } } else { if i < 251 { 219 } else { 220 } } } else { if i < 254 { if i < 253 { 221 } else { 222 } } else { if i < 255 { 223 } else { if i < 256 { 204 } else { 256 } } } } } } } } } }
#[verifier::opaque]
pub open spec fn hsorted(i: int) -> int { if i < 128 { if i < 64 { if i < 32 { if i < 16 { if i < 8 { if i < 4 { if i < 2 { if i < 1 { 48 } else { 49 } } else { if i < 3 { 50 } else { 97 } } } else { if i < 6 { if i < 5 { 99 } else { 101 } } else { if i < 7 { 105 } else { 111 } } } } else { if i < 12 { if i < 10 { if i < 9 { 115 } else { 116 } } else { if i < 11 { 32 } else { 37 } } } else { if i < 14 { if i < 13 { 45 } else { 46 } } else { if i < 15 { 47 } else { 51 } } } } } else { if i < 24 { if i < 20 { if i < 18 { if i < 17 { 52 } else { 53 } } else { if i < 19 { 54 } else { 55 } } } else { if i < 22 { if i < 21 { 56 } else { 57 } } else { if i < 23 { 61 } else { 65 } } } } else { if i < 28 { if i < 26 { if i < 25 { 95 } else { 98 } } else { if i < 27 { 100 } else { 102 } } } else { if i < 30 { if i < 29 { 103 } else { 104 } } else { if i < 31 { 108 } else { 109 } } } } } } else { if i < 48 { if i < 40 { if i < 36 { if i < 34 { if i < 33 { 110 } else { 112 } } else { if i < 35 { 114 } else { 117 } } } else { if i < 38 { if i < 37 { 58 } else { 66 } } else { if i < 39 { 67 } else { 68 } } } } else { if i < 44 { if i < 42 { if i < 41 { 69 } else { 70 } } else { if i < 43 { 71 } else { 72 } } } else { if i < 46 { if i < 45 { 73 } else { 74 } } else { if i < 47 { 75 } else { 76 } } } } } else { if i < 56 { if i < 52 { if i < 50 { if i < 49 { 77 } else { 78 } } else { if i < 51 { 79 } else { 80 } } } else { if i < 54 { if i < 53 { 81 } else { 82 } } else { if i < 55 { 83 } else { 84 } } } } else { if i < 60 { if i < 58 { if i < 57 { 85 } else { 86 } } else { if i < 59 { 87 } else { 89 } } } else { if i < 62 { if i < 61 { 106 } else { 107 } } else { if i < 63 { 113 } else { 118 } } } } } } } else { if i < 96 { if i < 80 { if i < 72 { if i < 68 { if i < 66 { if i < 65 { 119 } else { 120 } } else { if i < 67 { 121 } else { 122 } } } else { if i < 70 { if i < 69 { 38 } else { 42 } } else { if i < 71 { 44 } else { 59 } } } } else { if i < 76 { if i < 74 { if i < 73 { 88 } else { 90 } } else { if i < 75 { 33 } else { 34 } } } else { if i < 78 { if i < 77 { 40 } else { 41 } } else { if i < 79 { 63 } else { 39 } } } } } else { if i < 88 { if i < 84 { if i < 82 { if i < 81 { 43 } else { 124 } } else { if i < 83 { 35 } else { 62 } } } else { if i < 86 { if i < 85 { 0 } else { 36 } } else { if i < 87 { 64 } else { 91 } } } } else { if i < 92 { if i < 90 { if i < 89 { 93 } else { 126 } } else { if i < 91 { 94 } else { 125 } } } else { if i < 94 { if i < 93 { 60 } else { 96 } } else { if i < 95 { 123 } else { 92 } } } } } } else { if i < 112 { if i < 104 { if i < 100 { if i < 98 { if i < 97 { 195 } else { 208 } } else { if i < 99 { 128 } else { 130 } } } else { if i < 102 { if i < 101 { 131 } else { 162 } } else { if i < 103 { 184 } else { 194 } } } } else { if i < 108 { if i < 106 { if i < 105 { 224 } else { 226 } } else { if i < 107 { 153 } else { 161 } } } else { if i < 110 { if i < 109 { 167 } else { 172 } } else { if i < 111 { 176 } else { 177 } } } } } else { if i < 120 { if i < 116 { if i < 114 { if i < 113 { 179 } else { 209 } } else { if i < 115 { 216 } else { 217 } } } else { if i < 118 { if i < 117 { 227 } else { 229 } } else { if i < 119 { 230 } else { 129 } } } } else { if i < 124 { if i < 122 { if i < 121 { 132 } else { 133 } } else { if i < 123 { 134 } else { 136 } } } else { if i < 126 { if i < 125 { 146 } else { 154 } } else { if i < 127 { 156 } else { 160 } } } } } } } } else { if i < 192 { if i < 160 { if i < 144 { if i < 136 { if i < 132 { if i < 130 { if i < 129 { 163 } else { 164 } } else { if i < 131 { 169 } else { 170 } } } else { if i < 134 { if i < 133 { 173 } else { 178 } } else { if i < 135 { 181 } else { 185 } } } } else { if i < 140 { if i < 138 { if i < 137 { 186 } else { 187 } } else { if i < 139 { 189 } else { 190 } } } else { if i < 142 { if i < 141 { 196 } else { 198 } } else { if i < 143 { 228 } else { 232 } } } } } else { if i < 152 { if i < 148 { if i < 146 { if i < 145 { 233 } else { 1 } } else { if i < 147 { 135 } else { 137 } } } else { if i < 150 { if i < 149 { 138 } else { 139 } } else { if i < 151 { 140 } else { 141 } } } } else { if i < 156 { if i < 154 { if i < 153 { 143 } else { 147 } } else { if i < 155 { 149 } else { 150 } } } else { if i < 158 { if i < 157 { 151 } else { 152 } } else { if i < 159 { 155 } else { 157 } } } } } } else { if i < 176 { if i < 168 { if i < 164 { if i < 162 { if i < 161 { 158 } else { 165 } } else { if i < 163 { 166 } else { 168 } } } else { if i < 166 { if i < 165 { 174 } else { 175 } } else { if i < 167 { 180 } else { 182 } } } } else { if i < 172 { if i < 170 { if i < 169 { 183 } else { 188 } } else { if i < 171 { 191 } else { 197 } } } else { if i < 174 { if i < 173 { 231 } else { 239 } } else { if i < 175 { 9 } else { 142 } } } } } else { if i < 184 { if i < 180 { if i < 178 { if i < 177 { 144 } else { 145 } } else { if i < 179 { 148 } else { 159 } } } else { if i < 182 { if i < 181 { 171 } else { 206 } } else { if i < 183 { 215 } else { 225 } } } } else { if i < 188 { if i < 186 { if i < 185 { 236 } else { 237 } } else { if i < 187 { 199 } else { 207 } } } else { if i < 190 { if i < 189 { 234 } else { 235 } } else { if i < 191 { 192 } else { 193 } } } } } } } else { if i < 224 { if i < 208 { if i < 200 { if i < 196 { if i < 194 { if i < 193 { 200 } else { 201 } } else { if i < 195 { 202 } else { 205 } } } else { if i < 198 { if i < 197 { 210 } else { 213 } } else { if i < 199 { 218 } else { 219 } } } } else { if i < 204 { if i < 202 { if i < 201 { 238 } else { 240 } } else { if i < 203 { 242 } else { 243 } } } else { if i < 206 { if i < 205 { 255 } else { 203 } } else { if i < 207 { 204 } else { 211 } } } } } else { if i < 216 { if i < 212 { if i < 210 { if i < 209 { 212 } else { 214 } } else { if i < 211 { 221 } else { 222 } } } else { if i < 214 { if i < 213 { 223 } else { 241 } } else { if i < 215 { 244 } else { 245 } } } } else { if i < 220 { if i < 218 { if i < 217 { 246 } else { 247 } } else { if i < 219 { 248 } else { 250 } } } else { if i < 222 { if i < 221 { 251 } else { 252 } } else { if i < 223 { 253 } else { 254 } } } } } } else { if i < 240 { if i < 232 { if i < 228 { if i < 226 { if i < 225 { 2 } else { 3 } } else { if i < 227 { 4 } else { 5 } } } else { if i < 230 { if i < 229 { 6 } else { 7 } } else { if i < 231 { 8 } else { 11 } } } } else { if i < 236 { if i < 234 { if i < 233 { 12 } else { 14 } } else { if i < 235 { 15 } else { 16 } } } else { if i < 238 { if i < 237 { 17 } else { 18 } } else { if i < 239 { 19 } else { 20 } } } } } else { if i < 248 { if i < 244 { if i < 242 { if i < 241 { 21 } else { 23 } } else { if i < 243 { 24 } else { 25 } } } else { if i < 246 { if i < 245 { 26 } else { 27 } } else { if i < 247 { 28 } else { 29 } } } } else { if i < 252 { if i < 250 { if i < 249 { 30 } else { 31 } } else { if i < 251 { 127 } else { 220 } } } else { if i < 254 { if i < 253 { 249 } else { 10 } } else { if i < 255 { 13 } else { if i < 256 { 22 } else { 256 } } } } } } } } } }
}
