/* opcodes.h -- the WebAssembly instruction set: encoding of the opcode (bytes, most significant first), text name and
   immediates. Generated once from an independent assembler (wasmtime wat2wasm, /opt/vp/venv) -- not from /repo. */
OPC(0x0, "unreachable", K_NONE)
OPC(0x1, "nop", K_NONE)
OPC(0x2, "block", K_BT)
OPC(0x3, "loop", K_BT)
OPC(0x4, "if", K_BT)
OPC(0x5, "else", K_NONE)
OPC(0xB, "end", K_NONE)
OPC(0xC, "br", K_U32)
OPC(0xD, "br_if", K_U32)
OPC(0xE, "br_table", K_BRT)
OPC(0xF, "return", K_NONE)
OPC(0x10, "call", K_U32)
OPC(0x11, "call_indirect", K_U32X2)
OPC(0x12, "return_call", K_U32)
OPC(0x13, "return_call_indirect", K_U32X2)
OPC(0x1A, "drop", K_NONE)
OPC(0x1B, "select", K_NONE)
OPC(0x1C, "select_t", K_VTVEC)
OPC(0x20, "local.get", K_U32)
OPC(0x21, "local.set", K_U32)
OPC(0x22, "local.tee", K_U32)
OPC(0x23, "global.get", K_U32)
OPC(0x24, "global.set", K_U32)
OPC(0x25, "table.get", K_U32)
OPC(0x26, "table.set", K_U32)
OPC(0x28, "i32.load", K_MEMARG)
OPC(0x29, "i64.load", K_MEMARG)
OPC(0x2A, "f32.load", K_MEMARG)
OPC(0x2B, "f64.load", K_MEMARG)
OPC(0x2C, "i32.load8_s", K_MEMARG)
OPC(0x2D, "i32.load8_u", K_MEMARG)
OPC(0x2E, "i32.load16_s", K_MEMARG)
OPC(0x2F, "i32.load16_u", K_MEMARG)
OPC(0x30, "i64.load8_s", K_MEMARG)
OPC(0x31, "i64.load8_u", K_MEMARG)
OPC(0x32, "i64.load16_s", K_MEMARG)
OPC(0x33, "i64.load16_u", K_MEMARG)
OPC(0x34, "i64.load32_s", K_MEMARG)
OPC(0x35, "i64.load32_u", K_MEMARG)
OPC(0x36, "i32.store", K_MEMARG)
OPC(0x37, "i64.store", K_MEMARG)
OPC(0x38, "f32.store", K_MEMARG)
OPC(0x39, "f64.store", K_MEMARG)
OPC(0x3A, "i32.store8", K_MEMARG)
OPC(0x3B, "i32.store16", K_MEMARG)
OPC(0x3C, "i64.store8", K_MEMARG)
OPC(0x3D, "i64.store16", K_MEMARG)
OPC(0x3E, "i64.store32", K_MEMARG)
OPC(0x3F, "memory.size", K_Z1)
OPC(0x40, "memory.grow", K_Z1)
OPC(0x41, "i32.const", K_S32)
OPC(0x42, "i64.const", K_S64)
OPC(0x43, "f32.const", K_F32)
OPC(0x44, "f64.const", K_F64)
OPC(0x45, "i32.eqz", K_NONE)
OPC(0x46, "i32.eq", K_NONE)
OPC(0x47, "i32.ne", K_NONE)
OPC(0x48, "i32.lt_s", K_NONE)
OPC(0x49, "i32.lt_u", K_NONE)
OPC(0x4A, "i32.gt_s", K_NONE)
OPC(0x4B, "i32.gt_u", K_NONE)
OPC(0x4C, "i32.le_s", K_NONE)
OPC(0x4D, "i32.le_u", K_NONE)
OPC(0x4E, "i32.ge_s", K_NONE)
OPC(0x4F, "i32.ge_u", K_NONE)
OPC(0x50, "i64.eqz", K_NONE)
OPC(0x51, "i64.eq", K_NONE)
OPC(0x52, "i64.ne", K_NONE)
OPC(0x53, "i64.lt_s", K_NONE)
OPC(0x54, "i64.lt_u", K_NONE)
OPC(0x55, "i64.gt_s", K_NONE)
OPC(0x56, "i64.gt_u", K_NONE)
OPC(0x57, "i64.le_s", K_NONE)
OPC(0x58, "i64.le_u", K_NONE)
OPC(0x59, "i64.ge_s", K_NONE)
OPC(0x5A, "i64.ge_u", K_NONE)
OPC(0x5B, "f32.eq", K_NONE)
OPC(0x5C, "f32.ne", K_NONE)
OPC(0x5D, "f32.lt", K_NONE)
OPC(0x5E, "f32.gt", K_NONE)
OPC(0x5F, "f32.le", K_NONE)
OPC(0x60, "f32.ge", K_NONE)
OPC(0x61, "f64.eq", K_NONE)
OPC(0x62, "f64.ne", K_NONE)
OPC(0x63, "f64.lt", K_NONE)
OPC(0x64, "f64.gt", K_NONE)
OPC(0x65, "f64.le", K_NONE)
OPC(0x66, "f64.ge", K_NONE)
OPC(0x67, "i32.clz", K_NONE)
OPC(0x68, "i32.ctz", K_NONE)
OPC(0x69, "i32.popcnt", K_NONE)
OPC(0x6A, "i32.add", K_NONE)
OPC(0x6B, "i32.sub", K_NONE)
OPC(0x6C, "i32.mul", K_NONE)
OPC(0x6D, "i32.div_s", K_NONE)
OPC(0x6E, "i32.div_u", K_NONE)
OPC(0x6F, "i32.rem_s", K_NONE)
OPC(0x70, "i32.rem_u", K_NONE)
OPC(0x71, "i32.and", K_NONE)
OPC(0x72, "i32.or", K_NONE)
OPC(0x73, "i32.xor", K_NONE)
OPC(0x74, "i32.shl", K_NONE)
OPC(0x75, "i32.shr_s", K_NONE)
OPC(0x76, "i32.shr_u", K_NONE)
OPC(0x77, "i32.rotl", K_NONE)
OPC(0x78, "i32.rotr", K_NONE)
OPC(0x79, "i64.clz", K_NONE)
OPC(0x7A, "i64.ctz", K_NONE)
OPC(0x7B, "i64.popcnt", K_NONE)
OPC(0x7C, "i64.add", K_NONE)
OPC(0x7D, "i64.sub", K_NONE)
OPC(0x7E, "i64.mul", K_NONE)
OPC(0x7F, "i64.div_s", K_NONE)
OPC(0x80, "i64.div_u", K_NONE)
OPC(0x81, "i64.rem_s", K_NONE)
OPC(0x82, "i64.rem_u", K_NONE)
OPC(0x83, "i64.and", K_NONE)
OPC(0x84, "i64.or", K_NONE)
OPC(0x85, "i64.xor", K_NONE)
OPC(0x86, "i64.shl", K_NONE)
OPC(0x87, "i64.shr_s", K_NONE)
OPC(0x88, "i64.shr_u", K_NONE)
OPC(0x89, "i64.rotl", K_NONE)
OPC(0x8A, "i64.rotr", K_NONE)
OPC(0x8B, "f32.abs", K_NONE)
OPC(0x8C, "f32.neg", K_NONE)
OPC(0x8D, "f32.ceil", K_NONE)
OPC(0x8E, "f32.floor", K_NONE)
OPC(0x8F, "f32.trunc", K_NONE)
OPC(0x90, "f32.nearest", K_NONE)
OPC(0x91, "f32.sqrt", K_NONE)
OPC(0x92, "f32.add", K_NONE)
OPC(0x93, "f32.sub", K_NONE)
OPC(0x94, "f32.mul", K_NONE)
OPC(0x95, "f32.div", K_NONE)
OPC(0x96, "f32.min", K_NONE)
OPC(0x97, "f32.max", K_NONE)
OPC(0x98, "f32.copysign", K_NONE)
OPC(0x99, "f64.abs", K_NONE)
OPC(0x9A, "f64.neg", K_NONE)
OPC(0x9B, "f64.ceil", K_NONE)
OPC(0x9C, "f64.floor", K_NONE)
OPC(0x9D, "f64.trunc", K_NONE)
OPC(0x9E, "f64.nearest", K_NONE)
OPC(0x9F, "f64.sqrt", K_NONE)
OPC(0xA0, "f64.add", K_NONE)
OPC(0xA1, "f64.sub", K_NONE)
OPC(0xA2, "f64.mul", K_NONE)
OPC(0xA3, "f64.div", K_NONE)
OPC(0xA4, "f64.min", K_NONE)
OPC(0xA5, "f64.max", K_NONE)
OPC(0xA6, "f64.copysign", K_NONE)
OPC(0xA7, "i32.wrap_i64", K_NONE)
OPC(0xA8, "i32.trunc_f32_s", K_NONE)
OPC(0xA9, "i32.trunc_f32_u", K_NONE)
OPC(0xAA, "i32.trunc_f64_s", K_NONE)
OPC(0xAB, "i32.trunc_f64_u", K_NONE)
OPC(0xAC, "i64.extend_i32_s", K_NONE)
OPC(0xAD, "i64.extend_i32_u", K_NONE)
OPC(0xAE, "i64.trunc_f32_s", K_NONE)
OPC(0xAF, "i64.trunc_f32_u", K_NONE)
OPC(0xB0, "i64.trunc_f64_s", K_NONE)
OPC(0xB1, "i64.trunc_f64_u", K_NONE)
OPC(0xB2, "f32.convert_i32_s", K_NONE)
OPC(0xB3, "f32.convert_i32_u", K_NONE)
OPC(0xB4, "f32.convert_i64_s", K_NONE)
OPC(0xB5, "f32.convert_i64_u", K_NONE)
OPC(0xB6, "f32.demote_f64", K_NONE)
OPC(0xB7, "f64.convert_i32_s", K_NONE)
OPC(0xB8, "f64.convert_i32_u", K_NONE)
OPC(0xB9, "f64.convert_i64_s", K_NONE)
OPC(0xBA, "f64.convert_i64_u", K_NONE)
OPC(0xBB, "f64.promote_f32", K_NONE)
OPC(0xBC, "i32.reinterpret_f32", K_NONE)
OPC(0xBD, "i64.reinterpret_f64", K_NONE)
OPC(0xBE, "f32.reinterpret_i32", K_NONE)
OPC(0xBF, "f64.reinterpret_i64", K_NONE)
OPC(0xC0, "i32.extend8_s", K_NONE)
OPC(0xC1, "i32.extend16_s", K_NONE)
OPC(0xC2, "i64.extend8_s", K_NONE)
OPC(0xC3, "i64.extend16_s", K_NONE)
OPC(0xC4, "i64.extend32_s", K_NONE)
OPC(0xD0, "ref.null", K_HT)
OPC(0xD1, "ref.is_null", K_NONE)
OPC(0xD2, "ref.func", K_U32)
OPC(0xFC00, "i32.trunc_sat_f32_s", K_NONE)
OPC(0xFC01, "i32.trunc_sat_f32_u", K_NONE)
OPC(0xFC02, "i32.trunc_sat_f64_s", K_NONE)
OPC(0xFC03, "i32.trunc_sat_f64_u", K_NONE)
OPC(0xFC04, "i64.trunc_sat_f32_s", K_NONE)
OPC(0xFC05, "i64.trunc_sat_f32_u", K_NONE)
OPC(0xFC06, "i64.trunc_sat_f64_s", K_NONE)
OPC(0xFC07, "i64.trunc_sat_f64_u", K_NONE)
OPC(0xFC08, "memory.init", K_MEMINIT)
OPC(0xFC09, "data.drop", K_U32)
OPC(0xFC0A, "memory.copy", K_Z2)
OPC(0xFC0B, "memory.fill", K_Z1)
OPC(0xFC0C, "table.init", K_U32X2)
OPC(0xFC0D, "elem.drop", K_U32)
OPC(0xFC0E, "table.copy", K_U32X2)
OPC(0xFC0F, "table.grow", K_U32)
OPC(0xFC10, "table.size", K_U32)
OPC(0xFC11, "table.fill", K_U32)
OPC(0xFD00, "v128.load", K_MEMARG)
OPC(0xFD01, "v128.load8x8_s", K_MEMARG)
OPC(0xFD02, "v128.load8x8_u", K_MEMARG)
OPC(0xFD03, "v128.load16x4_s", K_MEMARG)
OPC(0xFD04, "v128.load16x4_u", K_MEMARG)
OPC(0xFD05, "v128.load32x2_s", K_MEMARG)
OPC(0xFD06, "v128.load32x2_u", K_MEMARG)
OPC(0xFD07, "v128.load8_splat", K_MEMARG)
OPC(0xFD08, "v128.load16_splat", K_MEMARG)
OPC(0xFD09, "v128.load32_splat", K_MEMARG)
OPC(0xFD0A, "v128.load64_splat", K_MEMARG)
OPC(0xFD0B, "v128.store", K_MEMARG)
OPC(0xFD0C, "v128.const", K_B16)
OPC(0xFD0D, "i8x16.shuffle", K_LANES)
OPC(0xFD0E, "i8x16.swizzle", K_NONE)
OPC(0xFD0F, "i8x16.splat", K_NONE)
OPC(0xFD10, "i16x8.splat", K_NONE)
OPC(0xFD11, "i32x4.splat", K_NONE)
OPC(0xFD12, "i64x2.splat", K_NONE)
OPC(0xFD13, "f32x4.splat", K_NONE)
OPC(0xFD14, "f64x2.splat", K_NONE)
OPC(0xFD15, "i8x16.extract_lane_s", K_LANE)
OPC(0xFD16, "i8x16.extract_lane_u", K_LANE)
OPC(0xFD17, "i8x16.replace_lane", K_LANE)
OPC(0xFD18, "i16x8.extract_lane_s", K_LANE)
OPC(0xFD19, "i16x8.extract_lane_u", K_LANE)
OPC(0xFD1A, "i16x8.replace_lane", K_LANE)
OPC(0xFD1B, "i32x4.extract_lane", K_LANE)
OPC(0xFD1C, "i32x4.replace_lane", K_LANE)
OPC(0xFD1D, "i64x2.extract_lane", K_LANE)
OPC(0xFD1E, "i64x2.replace_lane", K_LANE)
OPC(0xFD1F, "f32x4.extract_lane", K_LANE)
OPC(0xFD20, "f32x4.replace_lane", K_LANE)
OPC(0xFD21, "f64x2.extract_lane", K_LANE)
OPC(0xFD22, "f64x2.replace_lane", K_LANE)
OPC(0xFD23, "i8x16.eq", K_NONE)
OPC(0xFD24, "i8x16.ne", K_NONE)
OPC(0xFD25, "i8x16.lt_s", K_NONE)
OPC(0xFD26, "i8x16.lt_u", K_NONE)
OPC(0xFD27, "i8x16.gt_s", K_NONE)
OPC(0xFD28, "i8x16.gt_u", K_NONE)
OPC(0xFD29, "i8x16.le_s", K_NONE)
OPC(0xFD2A, "i8x16.le_u", K_NONE)
OPC(0xFD2B, "i8x16.ge_s", K_NONE)
OPC(0xFD2C, "i8x16.ge_u", K_NONE)
OPC(0xFD2D, "i16x8.eq", K_NONE)
OPC(0xFD2E, "i16x8.ne", K_NONE)
OPC(0xFD2F, "i16x8.lt_s", K_NONE)
OPC(0xFD30, "i16x8.lt_u", K_NONE)
OPC(0xFD31, "i16x8.gt_s", K_NONE)
OPC(0xFD32, "i16x8.gt_u", K_NONE)
OPC(0xFD33, "i16x8.le_s", K_NONE)
OPC(0xFD34, "i16x8.le_u", K_NONE)
OPC(0xFD35, "i16x8.ge_s", K_NONE)
OPC(0xFD36, "i16x8.ge_u", K_NONE)
OPC(0xFD37, "i32x4.eq", K_NONE)
OPC(0xFD38, "i32x4.ne", K_NONE)
OPC(0xFD39, "i32x4.lt_s", K_NONE)
OPC(0xFD3A, "i32x4.lt_u", K_NONE)
OPC(0xFD3B, "i32x4.gt_s", K_NONE)
OPC(0xFD3C, "i32x4.gt_u", K_NONE)
OPC(0xFD3D, "i32x4.le_s", K_NONE)
OPC(0xFD3E, "i32x4.le_u", K_NONE)
OPC(0xFD3F, "i32x4.ge_s", K_NONE)
OPC(0xFD40, "i32x4.ge_u", K_NONE)
OPC(0xFD41, "f32x4.eq", K_NONE)
OPC(0xFD42, "f32x4.ne", K_NONE)
OPC(0xFD43, "f32x4.lt", K_NONE)
OPC(0xFD44, "f32x4.gt", K_NONE)
OPC(0xFD45, "f32x4.le", K_NONE)
OPC(0xFD46, "f32x4.ge", K_NONE)
OPC(0xFD47, "f64x2.eq", K_NONE)
OPC(0xFD48, "f64x2.ne", K_NONE)
OPC(0xFD49, "f64x2.lt", K_NONE)
OPC(0xFD4A, "f64x2.gt", K_NONE)
OPC(0xFD4B, "f64x2.le", K_NONE)
OPC(0xFD4C, "f64x2.ge", K_NONE)
OPC(0xFD4D, "v128.not", K_NONE)
OPC(0xFD4E, "v128.and", K_NONE)
OPC(0xFD4F, "v128.andnot", K_NONE)
OPC(0xFD50, "v128.or", K_NONE)
OPC(0xFD51, "v128.xor", K_NONE)
OPC(0xFD52, "v128.bitselect", K_NONE)
OPC(0xFD53, "v128.any_true", K_NONE)
OPC(0xFD54, "v128.load8_lane", K_MEMLANE)
OPC(0xFD55, "v128.load16_lane", K_MEMLANE)
OPC(0xFD56, "v128.load32_lane", K_MEMLANE)
OPC(0xFD57, "v128.load64_lane", K_MEMLANE)
OPC(0xFD58, "v128.store8_lane", K_MEMLANE)
OPC(0xFD59, "v128.store16_lane", K_MEMLANE)
OPC(0xFD5A, "v128.store32_lane", K_MEMLANE)
OPC(0xFD5B, "v128.store64_lane", K_MEMLANE)
OPC(0xFD5C, "v128.load32_zero", K_MEMARG)
OPC(0xFD5D, "v128.load64_zero", K_MEMARG)
OPC(0xFD5E, "f32x4.demote_f64x2_zero", K_NONE)
OPC(0xFD5F, "f64x2.promote_low_f32x4", K_NONE)
OPC(0xFD60, "i8x16.abs", K_NONE)
OPC(0xFD61, "i8x16.neg", K_NONE)
OPC(0xFD62, "i8x16.popcnt", K_NONE)
OPC(0xFD63, "i8x16.all_true", K_NONE)
OPC(0xFD64, "i8x16.bitmask", K_NONE)
OPC(0xFD65, "i8x16.narrow_i16x8_s", K_NONE)
OPC(0xFD66, "i8x16.narrow_i16x8_u", K_NONE)
OPC(0xFD67, "f32x4.ceil", K_NONE)
OPC(0xFD68, "f32x4.floor", K_NONE)
OPC(0xFD69, "f32x4.trunc", K_NONE)
OPC(0xFD6A, "f32x4.nearest", K_NONE)
OPC(0xFD6B, "i8x16.shl", K_NONE)
OPC(0xFD6C, "i8x16.shr_s", K_NONE)
OPC(0xFD6D, "i8x16.shr_u", K_NONE)
OPC(0xFD6E, "i8x16.add", K_NONE)
OPC(0xFD6F, "i8x16.add_sat_s", K_NONE)
OPC(0xFD70, "i8x16.add_sat_u", K_NONE)
OPC(0xFD71, "i8x16.sub", K_NONE)
OPC(0xFD72, "i8x16.sub_sat_s", K_NONE)
OPC(0xFD73, "i8x16.sub_sat_u", K_NONE)
OPC(0xFD74, "f64x2.ceil", K_NONE)
OPC(0xFD75, "f64x2.floor", K_NONE)
OPC(0xFD76, "i8x16.min_s", K_NONE)
OPC(0xFD77, "i8x16.min_u", K_NONE)
OPC(0xFD78, "i8x16.max_s", K_NONE)
OPC(0xFD79, "i8x16.max_u", K_NONE)
OPC(0xFD7A, "f64x2.trunc", K_NONE)
OPC(0xFD7B, "i8x16.avgr_u", K_NONE)
OPC(0xFD7C, "i16x8.extadd_pairwise_i8x16_s", K_NONE)
OPC(0xFD7D, "i16x8.extadd_pairwise_i8x16_u", K_NONE)
OPC(0xFD7E, "i32x4.extadd_pairwise_i16x8_s", K_NONE)
OPC(0xFD7F, "i32x4.extadd_pairwise_i16x8_u", K_NONE)
OPC(0xFD8001, "i16x8.abs", K_NONE)
OPC(0xFD8101, "i16x8.neg", K_NONE)
OPC(0xFD8201, "i16x8.q15mulr_sat_s", K_NONE)
OPC(0xFD8301, "i16x8.all_true", K_NONE)
OPC(0xFD8401, "i16x8.bitmask", K_NONE)
OPC(0xFD8501, "i16x8.narrow_i32x4_s", K_NONE)
OPC(0xFD8601, "i16x8.narrow_i32x4_u", K_NONE)
OPC(0xFD8701, "i16x8.extend_low_i8x16_s", K_NONE)
OPC(0xFD8801, "i16x8.extend_high_i8x16_s", K_NONE)
OPC(0xFD8901, "i16x8.extend_low_i8x16_u", K_NONE)
OPC(0xFD8A01, "i16x8.extend_high_i8x16_u", K_NONE)
OPC(0xFD8B01, "i16x8.shl", K_NONE)
OPC(0xFD8C01, "i16x8.shr_s", K_NONE)
OPC(0xFD8D01, "i16x8.shr_u", K_NONE)
OPC(0xFD8E01, "i16x8.add", K_NONE)
OPC(0xFD8F01, "i16x8.add_sat_s", K_NONE)
OPC(0xFD9001, "i16x8.add_sat_u", K_NONE)
OPC(0xFD9101, "i16x8.sub", K_NONE)
OPC(0xFD9201, "i16x8.sub_sat_s", K_NONE)
OPC(0xFD9301, "i16x8.sub_sat_u", K_NONE)
OPC(0xFD9401, "f64x2.nearest", K_NONE)
OPC(0xFD9501, "i16x8.mul", K_NONE)
OPC(0xFD9601, "i16x8.min_s", K_NONE)
OPC(0xFD9701, "i16x8.min_u", K_NONE)
OPC(0xFD9801, "i16x8.max_s", K_NONE)
OPC(0xFD9901, "i16x8.max_u", K_NONE)
OPC(0xFD9B01, "i16x8.avgr_u", K_NONE)
OPC(0xFD9C01, "i16x8.extmul_low_i8x16_s", K_NONE)
OPC(0xFD9D01, "i16x8.extmul_high_i8x16_s", K_NONE)
OPC(0xFD9E01, "i16x8.extmul_low_i8x16_u", K_NONE)
OPC(0xFD9F01, "i16x8.extmul_high_i8x16_u", K_NONE)
OPC(0xFDA001, "i32x4.abs", K_NONE)
OPC(0xFDA101, "i32x4.neg", K_NONE)
OPC(0xFDA301, "i32x4.all_true", K_NONE)
OPC(0xFDA401, "i32x4.bitmask", K_NONE)
OPC(0xFDA701, "i32x4.extend_low_i16x8_s", K_NONE)
OPC(0xFDA801, "i32x4.extend_high_i16x8_s", K_NONE)
OPC(0xFDA901, "i32x4.extend_low_i16x8_u", K_NONE)
OPC(0xFDAA01, "i32x4.extend_high_i16x8_u", K_NONE)
OPC(0xFDAB01, "i32x4.shl", K_NONE)
OPC(0xFDAC01, "i32x4.shr_s", K_NONE)
OPC(0xFDAD01, "i32x4.shr_u", K_NONE)
OPC(0xFDAE01, "i32x4.add", K_NONE)
OPC(0xFDB101, "i32x4.sub", K_NONE)
OPC(0xFDB501, "i32x4.mul", K_NONE)
OPC(0xFDB601, "i32x4.min_s", K_NONE)
OPC(0xFDB701, "i32x4.min_u", K_NONE)
OPC(0xFDB801, "i32x4.max_s", K_NONE)
OPC(0xFDB901, "i32x4.max_u", K_NONE)
OPC(0xFDBA01, "i32x4.dot_i16x8_s", K_NONE)
OPC(0xFDBC01, "i32x4.extmul_low_i16x8_s", K_NONE)
OPC(0xFDBD01, "i32x4.extmul_high_i16x8_s", K_NONE)
OPC(0xFDBE01, "i32x4.extmul_low_i16x8_u", K_NONE)
OPC(0xFDBF01, "i32x4.extmul_high_i16x8_u", K_NONE)
OPC(0xFDC001, "i64x2.abs", K_NONE)
OPC(0xFDC101, "i64x2.neg", K_NONE)
OPC(0xFDC301, "i64x2.all_true", K_NONE)
OPC(0xFDC401, "i64x2.bitmask", K_NONE)
OPC(0xFDC701, "i64x2.extend_low_i32x4_s", K_NONE)
OPC(0xFDC801, "i64x2.extend_high_i32x4_s", K_NONE)
OPC(0xFDC901, "i64x2.extend_low_i32x4_u", K_NONE)
OPC(0xFDCA01, "i64x2.extend_high_i32x4_u", K_NONE)
OPC(0xFDCB01, "i64x2.shl", K_NONE)
OPC(0xFDCC01, "i64x2.shr_s", K_NONE)
OPC(0xFDCD01, "i64x2.shr_u", K_NONE)
OPC(0xFDCE01, "i64x2.add", K_NONE)
OPC(0xFDD101, "i64x2.sub", K_NONE)
OPC(0xFDD501, "i64x2.mul", K_NONE)
OPC(0xFDD601, "i64x2.eq", K_NONE)
OPC(0xFDD701, "i64x2.ne", K_NONE)
OPC(0xFDD801, "i64x2.lt_s", K_NONE)
OPC(0xFDD901, "i64x2.gt_s", K_NONE)
OPC(0xFDDA01, "i64x2.le_s", K_NONE)
OPC(0xFDDB01, "i64x2.ge_s", K_NONE)
OPC(0xFDDC01, "i64x2.extmul_low_i32x4_s", K_NONE)
OPC(0xFDDD01, "i64x2.extmul_high_i32x4_s", K_NONE)
OPC(0xFDDE01, "i64x2.extmul_low_i32x4_u", K_NONE)
OPC(0xFDDF01, "i64x2.extmul_high_i32x4_u", K_NONE)
OPC(0xFDE001, "f32x4.abs", K_NONE)
OPC(0xFDE101, "f32x4.neg", K_NONE)
OPC(0xFDE301, "f32x4.sqrt", K_NONE)
OPC(0xFDE401, "f32x4.add", K_NONE)
OPC(0xFDE501, "f32x4.sub", K_NONE)
OPC(0xFDE601, "f32x4.mul", K_NONE)
OPC(0xFDE701, "f32x4.div", K_NONE)
OPC(0xFDE801, "f32x4.min", K_NONE)
OPC(0xFDE901, "f32x4.max", K_NONE)
OPC(0xFDEA01, "f32x4.pmin", K_NONE)
OPC(0xFDEB01, "f32x4.pmax", K_NONE)
OPC(0xFDEC01, "f64x2.abs", K_NONE)
OPC(0xFDED01, "f64x2.neg", K_NONE)
OPC(0xFDEF01, "f64x2.sqrt", K_NONE)
OPC(0xFDF001, "f64x2.add", K_NONE)
OPC(0xFDF101, "f64x2.sub", K_NONE)
OPC(0xFDF201, "f64x2.mul", K_NONE)
OPC(0xFDF301, "f64x2.div", K_NONE)
OPC(0xFDF401, "f64x2.min", K_NONE)
OPC(0xFDF501, "f64x2.max", K_NONE)
OPC(0xFDF601, "f64x2.pmin", K_NONE)
OPC(0xFDF701, "f64x2.pmax", K_NONE)
OPC(0xFDF801, "i32x4.trunc_sat_f32x4_s", K_NONE)
OPC(0xFDF901, "i32x4.trunc_sat_f32x4_u", K_NONE)
OPC(0xFDFA01, "f32x4.convert_i32x4_s", K_NONE)
OPC(0xFDFB01, "f32x4.convert_i32x4_u", K_NONE)
OPC(0xFDFC01, "i32x4.trunc_sat_f64x2_s_zero", K_NONE)
OPC(0xFDFD01, "i32x4.trunc_sat_f64x2_u_zero", K_NONE)
OPC(0xFDFE01, "f64x2.convert_low_i32x4_s", K_NONE)
OPC(0xFDFF01, "f64x2.convert_low_i32x4_u", K_NONE)
