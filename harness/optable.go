package main

import "github.com/keyfuse/tokucore/xvm"

// the opcodes the library gives names to, with Bitcoin's bytes.
var opConstants = []struct {
	name      string
	got, want int
}{
	{"OP_0", xvm.OP_0, 0x00},
	{"OP_PUSHDATA1", xvm.OP_PUSHDATA1, 0x4c},
	{"OP_PUSHDATA2", xvm.OP_PUSHDATA2, 0x4d},
	{"OP_PUSHDATA4", xvm.OP_PUSHDATA4, 0x4e},
	{"OP_1NEGATE", xvm.OP_1NEGATE, 0x4f},
	{"OP_RESERVED", xvm.OP_RESERVED, 0x50},
	{"OP_NOP", xvm.OP_NOP, 0x61},
	{"OP_VER", xvm.OP_VER, 0x62},
	{"OP_IF", xvm.OP_IF, 0x63},
	{"OP_NOTIF", xvm.OP_NOTIF, 0x64},
	{"OP_VERIF", xvm.OP_VERIF, 0x65},
	{"OP_VERNOTIF", xvm.OP_VERNOTIF, 0x66},
	{"OP_ELSE", xvm.OP_ELSE, 0x67},
	{"OP_ENDIF", xvm.OP_ENDIF, 0x68},
	{"OP_VERIFY", xvm.OP_VERIFY, 0x69},
	{"OP_RETURN", xvm.OP_RETURN, 0x6a},
	{"OP_TOALTSTACK", xvm.OP_TOALTSTACK, 0x6b},
	{"OP_FROMALTSTACK", xvm.OP_FROMALTSTACK, 0x6c},
	{"OP_2DROP", xvm.OP_2DROP, 0x6d},
	{"OP_2DUP", xvm.OP_2DUP, 0x6e},
	{"OP_3DUP", xvm.OP_3DUP, 0x6f},
	{"OP_2OVER", xvm.OP_2OVER, 0x70},
	{"OP_2ROT", xvm.OP_2ROT, 0x71},
	{"OP_2SWAP", xvm.OP_2SWAP, 0x72},
	{"OP_IFDUP", xvm.OP_IFDUP, 0x73},
	{"OP_DEPTH", xvm.OP_DEPTH, 0x74},
	{"OP_DROP", xvm.OP_DROP, 0x75},
	{"OP_DUP", xvm.OP_DUP, 0x76},
	{"OP_NIP", xvm.OP_NIP, 0x77},
	{"OP_OVER", xvm.OP_OVER, 0x78},
	{"OP_PICK", xvm.OP_PICK, 0x79},
	{"OP_ROLL", xvm.OP_ROLL, 0x7a},
	{"OP_ROT", xvm.OP_ROT, 0x7b},
	{"OP_SWAP", xvm.OP_SWAP, 0x7c},
	{"OP_TUCK", xvm.OP_TUCK, 0x7d},
	{"OP_CAT", xvm.OP_CAT, 0x7e},
	{"OP_SUBSTR", xvm.OP_SUBSTR, 0x7f},
	{"OP_LEFT", xvm.OP_LEFT, 0x80},
	{"OP_RIGHT", xvm.OP_RIGHT, 0x81},
	{"OP_SIZE", xvm.OP_SIZE, 0x82},
	{"OP_INVERT", xvm.OP_INVERT, 0x83},
	{"OP_AND", xvm.OP_AND, 0x84},
	{"OP_OR", xvm.OP_OR, 0x85},
	{"OP_XOR", xvm.OP_XOR, 0x86},
	{"OP_EQUAL", xvm.OP_EQUAL, 0x87},
	{"OP_EQUALVERIFY", xvm.OP_EQUALVERIFY, 0x88},
	{"OP_RESERVED1", xvm.OP_RESERVED1, 0x89},
	{"OP_RESERVED2", xvm.OP_RESERVED2, 0x8a},
	{"OP_1ADD", xvm.OP_1ADD, 0x8b},
	{"OP_1SUB", xvm.OP_1SUB, 0x8c},
	{"OP_2MUL", xvm.OP_2MUL, 0x8d},
	{"OP_2DIV", xvm.OP_2DIV, 0x8e},
	{"OP_NEGATE", xvm.OP_NEGATE, 0x8f},
	{"OP_ABS", xvm.OP_ABS, 0x90},
	{"OP_NOT", xvm.OP_NOT, 0x91},
	{"OP_0NOTEQUAL", xvm.OP_0NOTEQUAL, 0x92},
	{"OP_ADD", xvm.OP_ADD, 0x93},
	{"OP_SUB", xvm.OP_SUB, 0x94},
	{"OP_MUL", xvm.OP_MUL, 0x95},
	{"OP_DIV", xvm.OP_DIV, 0x96},
	{"OP_MOD", xvm.OP_MOD, 0x97},
	{"OP_LSHIFT", xvm.OP_LSHIFT, 0x98},
	{"OP_RSHIFT", xvm.OP_RSHIFT, 0x99},
	{"OP_BOOLAND", xvm.OP_BOOLAND, 0x9a},
	{"OP_BOOLOR", xvm.OP_BOOLOR, 0x9b},
	{"OP_NUMEQUAL", xvm.OP_NUMEQUAL, 0x9c},
	{"OP_NUMEQUALVERIFY", xvm.OP_NUMEQUALVERIFY, 0x9d},
	{"OP_NUMNOTEQUAL", xvm.OP_NUMNOTEQUAL, 0x9e},
	{"OP_LESSTHAN", xvm.OP_LESSTHAN, 0x9f},
	{"OP_GREATERTHAN", xvm.OP_GREATERTHAN, 0xa0},
	{"OP_LESSTHANOREQUAL", xvm.OP_LESSTHANOREQUAL, 0xa1},
	{"OP_GREATERTHANOREQUAL", xvm.OP_GREATERTHANOREQUAL, 0xa2},
	{"OP_MIN", xvm.OP_MIN, 0xa3},
	{"OP_MAX", xvm.OP_MAX, 0xa4},
	{"OP_WITHIN", xvm.OP_WITHIN, 0xa5},
	{"OP_RIPEMD160", xvm.OP_RIPEMD160, 0xa6},
	{"OP_SHA1", xvm.OP_SHA1, 0xa7},
	{"OP_SHA256", xvm.OP_SHA256, 0xa8},
	{"OP_HASH160", xvm.OP_HASH160, 0xa9},
	{"OP_HASH256", xvm.OP_HASH256, 0xaa},
	{"OP_CODESEPARATOR", xvm.OP_CODESEPARATOR, 0xab},
	{"OP_CHECKSIG", xvm.OP_CHECKSIG, 0xac},
	{"OP_CHECKSIGVERIFY", xvm.OP_CHECKSIGVERIFY, 0xad},
	{"OP_CHECKMULTISIG", xvm.OP_CHECKMULTISIG, 0xae},
	{"OP_CHECKMULTISIGVERIFY", xvm.OP_CHECKMULTISIGVERIFY, 0xaf},
	{"OP_NOP1", xvm.OP_NOP1, 0xb0},
	{"OP_CHECKLOCKTIMEVERIFY", xvm.OP_CHECKLOCKTIMEVERIFY, 0xb1},
	{"OP_CHECKSEQUENCEVERIFY", xvm.OP_CHECKSEQUENCEVERIFY, 0xb2},
	{"OP_NOP4", xvm.OP_NOP4, 0xb3},
	{"OP_NOP5", xvm.OP_NOP5, 0xb4},
	{"OP_NOP6", xvm.OP_NOP6, 0xb5},
	{"OP_NOP7", xvm.OP_NOP7, 0xb6},
	{"OP_NOP8", xvm.OP_NOP8, 0xb7},
	{"OP_NOP9", xvm.OP_NOP9, 0xb8},
	{"OP_NOP10", xvm.OP_NOP10, 0xb9},
	{"OP_INVALIDOPCODE", xvm.OP_INVALIDOPCODE, 0xff},
	{"OP_DATA_1", xvm.OP_DATA_1, 0x01},
	{"OP_DATA_2", xvm.OP_DATA_2, 0x02},
	{"OP_DATA_3", xvm.OP_DATA_3, 0x03},
	{"OP_DATA_4", xvm.OP_DATA_4, 0x04},
	{"OP_DATA_5", xvm.OP_DATA_5, 0x05},
	{"OP_DATA_6", xvm.OP_DATA_6, 0x06},
	{"OP_DATA_7", xvm.OP_DATA_7, 0x07},
	{"OP_DATA_8", xvm.OP_DATA_8, 0x08},
	{"OP_DATA_9", xvm.OP_DATA_9, 0x09},
	{"OP_DATA_10", xvm.OP_DATA_10, 0x0a},
	{"OP_DATA_11", xvm.OP_DATA_11, 0x0b},
	{"OP_DATA_12", xvm.OP_DATA_12, 0x0c},
	{"OP_DATA_13", xvm.OP_DATA_13, 0x0d},
	{"OP_DATA_14", xvm.OP_DATA_14, 0x0e},
	{"OP_DATA_15", xvm.OP_DATA_15, 0x0f},
	{"OP_DATA_16", xvm.OP_DATA_16, 0x10},
	{"OP_DATA_17", xvm.OP_DATA_17, 0x11},
	{"OP_DATA_18", xvm.OP_DATA_18, 0x12},
	{"OP_DATA_19", xvm.OP_DATA_19, 0x13},
	{"OP_DATA_20", xvm.OP_DATA_20, 0x14},
	{"OP_DATA_21", xvm.OP_DATA_21, 0x15},
	{"OP_DATA_22", xvm.OP_DATA_22, 0x16},
	{"OP_DATA_23", xvm.OP_DATA_23, 0x17},
	{"OP_DATA_24", xvm.OP_DATA_24, 0x18},
	{"OP_DATA_25", xvm.OP_DATA_25, 0x19},
	{"OP_DATA_26", xvm.OP_DATA_26, 0x1a},
	{"OP_DATA_27", xvm.OP_DATA_27, 0x1b},
	{"OP_DATA_28", xvm.OP_DATA_28, 0x1c},
	{"OP_DATA_29", xvm.OP_DATA_29, 0x1d},
	{"OP_DATA_30", xvm.OP_DATA_30, 0x1e},
	{"OP_DATA_31", xvm.OP_DATA_31, 0x1f},
	{"OP_DATA_32", xvm.OP_DATA_32, 0x20},
	{"OP_DATA_33", xvm.OP_DATA_33, 0x21},
	{"OP_DATA_34", xvm.OP_DATA_34, 0x22},
	{"OP_DATA_35", xvm.OP_DATA_35, 0x23},
	{"OP_DATA_36", xvm.OP_DATA_36, 0x24},
	{"OP_DATA_37", xvm.OP_DATA_37, 0x25},
	{"OP_DATA_38", xvm.OP_DATA_38, 0x26},
	{"OP_DATA_39", xvm.OP_DATA_39, 0x27},
	{"OP_DATA_40", xvm.OP_DATA_40, 0x28},
	{"OP_DATA_41", xvm.OP_DATA_41, 0x29},
	{"OP_DATA_42", xvm.OP_DATA_42, 0x2a},
	{"OP_DATA_43", xvm.OP_DATA_43, 0x2b},
	{"OP_DATA_44", xvm.OP_DATA_44, 0x2c},
	{"OP_DATA_45", xvm.OP_DATA_45, 0x2d},
	{"OP_DATA_46", xvm.OP_DATA_46, 0x2e},
	{"OP_DATA_47", xvm.OP_DATA_47, 0x2f},
	{"OP_DATA_48", xvm.OP_DATA_48, 0x30},
	{"OP_DATA_49", xvm.OP_DATA_49, 0x31},
	{"OP_DATA_50", xvm.OP_DATA_50, 0x32},
	{"OP_DATA_51", xvm.OP_DATA_51, 0x33},
	{"OP_DATA_52", xvm.OP_DATA_52, 0x34},
	{"OP_DATA_53", xvm.OP_DATA_53, 0x35},
	{"OP_DATA_54", xvm.OP_DATA_54, 0x36},
	{"OP_DATA_55", xvm.OP_DATA_55, 0x37},
	{"OP_DATA_56", xvm.OP_DATA_56, 0x38},
	{"OP_DATA_57", xvm.OP_DATA_57, 0x39},
	{"OP_DATA_58", xvm.OP_DATA_58, 0x3a},
	{"OP_DATA_59", xvm.OP_DATA_59, 0x3b},
	{"OP_DATA_60", xvm.OP_DATA_60, 0x3c},
	{"OP_DATA_61", xvm.OP_DATA_61, 0x3d},
	{"OP_DATA_62", xvm.OP_DATA_62, 0x3e},
	{"OP_DATA_63", xvm.OP_DATA_63, 0x3f},
	{"OP_DATA_64", xvm.OP_DATA_64, 0x40},
	{"OP_DATA_65", xvm.OP_DATA_65, 0x41},
	{"OP_DATA_66", xvm.OP_DATA_66, 0x42},
	{"OP_DATA_67", xvm.OP_DATA_67, 0x43},
	{"OP_DATA_68", xvm.OP_DATA_68, 0x44},
	{"OP_DATA_69", xvm.OP_DATA_69, 0x45},
	{"OP_DATA_70", xvm.OP_DATA_70, 0x46},
	{"OP_DATA_71", xvm.OP_DATA_71, 0x47},
	{"OP_DATA_72", xvm.OP_DATA_72, 0x48},
	{"OP_DATA_73", xvm.OP_DATA_73, 0x49},
	{"OP_DATA_74", xvm.OP_DATA_74, 0x4a},
	{"OP_DATA_75", xvm.OP_DATA_75, 0x4b},
	{"OP_1", xvm.OP_1, 0x51},
	{"OP_2", xvm.OP_2, 0x52},
	{"OP_3", xvm.OP_3, 0x53},
	{"OP_4", xvm.OP_4, 0x54},
	{"OP_5", xvm.OP_5, 0x55},
	{"OP_6", xvm.OP_6, 0x56},
	{"OP_7", xvm.OP_7, 0x57},
	{"OP_8", xvm.OP_8, 0x58},
	{"OP_9", xvm.OP_9, 0x59},
	{"OP_10", xvm.OP_10, 0x5a},
	{"OP_11", xvm.OP_11, 0x5b},
	{"OP_12", xvm.OP_12, 0x5c},
	{"OP_13", xvm.OP_13, 0x5d},
	{"OP_14", xvm.OP_14, 0x5e},
	{"OP_15", xvm.OP_15, 0x5f},
	{"OP_16", xvm.OP_16, 0x60},
	{"OP_TRUE", xvm.OP_TRUE, 0x51},
	{"OP_FALSE", xvm.OP_FALSE, 0x00},
	{"OP_NOP2", xvm.OP_NOP2, 0xb1},
	{"OP_NOP3", xvm.OP_NOP3, 0xb2},
}
