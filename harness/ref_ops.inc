/* The documented instruction set of the MOS 6502: opcode, mnemonic, addressing mode. */
static const struct { uint8_t op; char mn[4]; uint8_t mode; } ref_ops[151] = {
	{0x00, "BRK", IMP}, {0x01, "ORA", INDX}, {0x05, "ORA", ZP}, {0x06, "ASL", ZP}, {0x08, "PHP", IMP}, {0x09, "ORA", IMM}, {0x0A, "ASL", ACC}, {0x0D, "ORA", ABS}, {0x0E, "ASL", ABS},
	{0x10, "BPL", REL}, {0x11, "ORA", INDY}, {0x15, "ORA", ZPX}, {0x16, "ASL", ZPX}, {0x18, "CLC", IMP}, {0x19, "ORA", ABSY}, {0x1D, "ORA", ABSX}, {0x1E, "ASL", ABSX},
	{0x20, "JSR", ABS}, {0x21, "AND", INDX}, {0x24, "BIT", ZP}, {0x25, "AND", ZP}, {0x26, "ROL", ZP}, {0x28, "PLP", IMP}, {0x29, "AND", IMM}, {0x2A, "ROL", ACC}, {0x2C, "BIT", ABS}, {0x2D, "AND", ABS}, {0x2E, "ROL", ABS},
	{0x30, "BMI", REL}, {0x31, "AND", INDY}, {0x35, "AND", ZPX}, {0x36, "ROL", ZPX}, {0x38, "SEC", IMP}, {0x39, "AND", ABSY}, {0x3D, "AND", ABSX}, {0x3E, "ROL", ABSX},
	{0x40, "RTI", IMP}, {0x41, "EOR", INDX}, {0x45, "EOR", ZP}, {0x46, "LSR", ZP}, {0x48, "PHA", IMP}, {0x49, "EOR", IMM}, {0x4A, "LSR", ACC}, {0x4C, "JMP", ABS}, {0x4D, "EOR", ABS}, {0x4E, "LSR", ABS},
	{0x50, "BVC", REL}, {0x51, "EOR", INDY}, {0x55, "EOR", ZPX}, {0x56, "LSR", ZPX}, {0x58, "CLI", IMP}, {0x59, "EOR", ABSY}, {0x5D, "EOR", ABSX}, {0x5E, "LSR", ABSX},
	{0x60, "RTS", IMP}, {0x61, "ADC", INDX}, {0x65, "ADC", ZP}, {0x66, "ROR", ZP}, {0x68, "PLA", IMP}, {0x69, "ADC", IMM}, {0x6A, "ROR", ACC}, {0x6C, "JMP", IND}, {0x6D, "ADC", ABS}, {0x6E, "ROR", ABS},
	{0x70, "BVS", REL}, {0x71, "ADC", INDY}, {0x75, "ADC", ZPX}, {0x76, "ROR", ZPX}, {0x78, "SEI", IMP}, {0x79, "ADC", ABSY}, {0x7D, "ADC", ABSX}, {0x7E, "ROR", ABSX},
	{0x81, "STA", INDX}, {0x84, "STY", ZP}, {0x85, "STA", ZP}, {0x86, "STX", ZP}, {0x88, "DEY", IMP}, {0x8A, "TXA", IMP}, {0x8C, "STY", ABS}, {0x8D, "STA", ABS}, {0x8E, "STX", ABS},
	{0x90, "BCC", REL}, {0x91, "STA", INDY}, {0x94, "STY", ZPX}, {0x95, "STA", ZPX}, {0x96, "STX", ZPY}, {0x98, "TYA", IMP}, {0x99, "STA", ABSY}, {0x9A, "TXS", IMP}, {0x9D, "STA", ABSX},
	{0xA0, "LDY", IMM}, {0xA1, "LDA", INDX}, {0xA2, "LDX", IMM}, {0xA4, "LDY", ZP}, {0xA5, "LDA", ZP}, {0xA6, "LDX", ZP}, {0xA8, "TAY", IMP}, {0xA9, "LDA", IMM}, {0xAA, "TAX", IMP}, {0xAC, "LDY", ABS}, {0xAD, "LDA", ABS}, {0xAE, "LDX", ABS},
	{0xB0, "BCS", REL}, {0xB1, "LDA", INDY}, {0xB4, "LDY", ZPX}, {0xB5, "LDA", ZPX}, {0xB6, "LDX", ZPY}, {0xB8, "CLV", IMP}, {0xB9, "LDA", ABSY}, {0xBA, "TSX", IMP}, {0xBC, "LDY", ABSX}, {0xBD, "LDA", ABSX}, {0xBE, "LDX", ABSY},
	{0xC0, "CPY", IMM}, {0xC1, "CMP", INDX}, {0xC4, "CPY", ZP}, {0xC5, "CMP", ZP}, {0xC6, "DEC", ZP}, {0xC8, "INY", IMP}, {0xC9, "CMP", IMM}, {0xCA, "DEX", IMP}, {0xCC, "CPY", ABS}, {0xCD, "CMP", ABS}, {0xCE, "DEC", ABS},
	{0xD0, "BNE", REL}, {0xD1, "CMP", INDY}, {0xD5, "CMP", ZPX}, {0xD6, "DEC", ZPX}, {0xD8, "CLD", IMP}, {0xD9, "CMP", ABSY}, {0xDD, "CMP", ABSX}, {0xDE, "DEC", ABSX},
	{0xE0, "CPX", IMM}, {0xE1, "SBC", INDX}, {0xE4, "CPX", ZP}, {0xE5, "SBC", ZP}, {0xE6, "INC", ZP}, {0xE8, "INX", IMP}, {0xE9, "SBC", IMM}, {0xEA, "NOP", IMP}, {0xEC, "CPX", ABS}, {0xED, "SBC", ABS}, {0xEE, "INC", ABS},
	{0xF0, "BEQ", REL}, {0xF1, "SBC", INDY}, {0xF5, "SBC", ZPX}, {0xF6, "INC", ZPX}, {0xF8, "SED", IMP}, {0xF9, "SBC", ABSY}, {0xFD, "SBC", ABSX}, {0xFE, "INC", ABSX},
};
const char ref_mn[56][4] = {
	"ADC", "AND", "ASL", "BCC", "BCS", "BEQ", "BIT", "BMI", "BNE", "BPL", "BRK", "BVC", "BVS", "CLC",
	"CLD", "CLI", "CLV", "CMP", "CPX", "CPY", "DEC", "DEX", "DEY", "EOR", "INC", "INX", "INY", "JMP",
	"JSR", "LDA", "LDX", "LDY", "LSR", "NOP", "ORA", "PHA", "PHP", "PLA", "PLP", "ROL", "ROR", "RTI",
	"RTS", "SBC", "SEC", "SED", "SEI", "STA", "STX", "STY", "TAX", "TAY", "TSX", "TXA", "TXS", "TYA",
};
const uint8_t ref_isbranch[56] = {0, 0, 0, 1, 1, 1, 0, 1, 1, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
const uint8_t ref_isjump[56] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
