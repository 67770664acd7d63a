package main

import "github.com/ProtonMail/go-rfc5322/parser"

// tokenConsts are the exported token types, of the lexer and of the parser.
var tokenConsts = map[string][2]int{
	"U_00":         {parser.RFC5322LexerU_00, parser.RFC5322ParserU_00},
	"U_01_08":      {parser.RFC5322LexerU_01_08, parser.RFC5322ParserU_01_08},
	"TAB":          {parser.RFC5322LexerTAB, parser.RFC5322ParserTAB},
	"LF":           {parser.RFC5322LexerLF, parser.RFC5322ParserLF},
	"U_0B":         {parser.RFC5322LexerU_0B, parser.RFC5322ParserU_0B},
	"U_0C":         {parser.RFC5322LexerU_0C, parser.RFC5322ParserU_0C},
	"CR":           {parser.RFC5322LexerCR, parser.RFC5322ParserCR},
	"U_0E_1F":      {parser.RFC5322LexerU_0E_1F, parser.RFC5322ParserU_0E_1F},
	"SP":           {parser.RFC5322LexerSP, parser.RFC5322ParserSP},
	"Exclamation":  {parser.RFC5322LexerExclamation, parser.RFC5322ParserExclamation},
	"DQuote":       {parser.RFC5322LexerDQuote, parser.RFC5322ParserDQuote},
	"Hash":         {parser.RFC5322LexerHash, parser.RFC5322ParserHash},
	"Dollar":       {parser.RFC5322LexerDollar, parser.RFC5322ParserDollar},
	"Percent":      {parser.RFC5322LexerPercent, parser.RFC5322ParserPercent},
	"Ampersand":    {parser.RFC5322LexerAmpersand, parser.RFC5322ParserAmpersand},
	"SQuote":       {parser.RFC5322LexerSQuote, parser.RFC5322ParserSQuote},
	"LParens":      {parser.RFC5322LexerLParens, parser.RFC5322ParserLParens},
	"RParens":      {parser.RFC5322LexerRParens, parser.RFC5322ParserRParens},
	"Asterisk":     {parser.RFC5322LexerAsterisk, parser.RFC5322ParserAsterisk},
	"Plus":         {parser.RFC5322LexerPlus, parser.RFC5322ParserPlus},
	"Comma":        {parser.RFC5322LexerComma, parser.RFC5322ParserComma},
	"Minus":        {parser.RFC5322LexerMinus, parser.RFC5322ParserMinus},
	"Period":       {parser.RFC5322LexerPeriod, parser.RFC5322ParserPeriod},
	"Slash":        {parser.RFC5322LexerSlash, parser.RFC5322ParserSlash},
	"Digit":        {parser.RFC5322LexerDigit, parser.RFC5322ParserDigit},
	"Colon":        {parser.RFC5322LexerColon, parser.RFC5322ParserColon},
	"Semicolon":    {parser.RFC5322LexerSemicolon, parser.RFC5322ParserSemicolon},
	"Less":         {parser.RFC5322LexerLess, parser.RFC5322ParserLess},
	"Equal":        {parser.RFC5322LexerEqual, parser.RFC5322ParserEqual},
	"Greater":      {parser.RFC5322LexerGreater, parser.RFC5322ParserGreater},
	"Question":     {parser.RFC5322LexerQuestion, parser.RFC5322ParserQuestion},
	"At":           {parser.RFC5322LexerAt, parser.RFC5322ParserAt},
	"LBracket":     {parser.RFC5322LexerLBracket, parser.RFC5322ParserLBracket},
	"Backslash":    {parser.RFC5322LexerBackslash, parser.RFC5322ParserBackslash},
	"RBracket":     {parser.RFC5322LexerRBracket, parser.RFC5322ParserRBracket},
	"Caret":        {parser.RFC5322LexerCaret, parser.RFC5322ParserCaret},
	"Underscore":   {parser.RFC5322LexerUnderscore, parser.RFC5322ParserUnderscore},
	"Backtick":     {parser.RFC5322LexerBacktick, parser.RFC5322ParserBacktick},
	"LCurly":       {parser.RFC5322LexerLCurly, parser.RFC5322ParserLCurly},
	"Pipe":         {parser.RFC5322LexerPipe, parser.RFC5322ParserPipe},
	"RCurly":       {parser.RFC5322LexerRCurly, parser.RFC5322ParserRCurly},
	"Tilde":        {parser.RFC5322LexerTilde, parser.RFC5322ParserTilde},
	"Delete":       {parser.RFC5322LexerDelete, parser.RFC5322ParserDelete},
	"UTF8NonAscii": {parser.RFC5322LexerUTF8NonAscii, parser.RFC5322ParserUTF8NonAscii},
	"A":            {parser.RFC5322LexerA, parser.RFC5322ParserA},
	"B":            {parser.RFC5322LexerB, parser.RFC5322ParserB},
	"C":            {parser.RFC5322LexerC, parser.RFC5322ParserC},
	"D":            {parser.RFC5322LexerD, parser.RFC5322ParserD},
	"E":            {parser.RFC5322LexerE, parser.RFC5322ParserE},
	"F":            {parser.RFC5322LexerF, parser.RFC5322ParserF},
	"G":            {parser.RFC5322LexerG, parser.RFC5322ParserG},
	"H":            {parser.RFC5322LexerH, parser.RFC5322ParserH},
	"I":            {parser.RFC5322LexerI, parser.RFC5322ParserI},
	"J":            {parser.RFC5322LexerJ, parser.RFC5322ParserJ},
	"K":            {parser.RFC5322LexerK, parser.RFC5322ParserK},
	"L":            {parser.RFC5322LexerL, parser.RFC5322ParserL},
	"M":            {parser.RFC5322LexerM, parser.RFC5322ParserM},
	"N":            {parser.RFC5322LexerN, parser.RFC5322ParserN},
	"O":            {parser.RFC5322LexerO, parser.RFC5322ParserO},
	"P":            {parser.RFC5322LexerP, parser.RFC5322ParserP},
	"Q":            {parser.RFC5322LexerQ, parser.RFC5322ParserQ},
	"R":            {parser.RFC5322LexerR, parser.RFC5322ParserR},
	"S":            {parser.RFC5322LexerS, parser.RFC5322ParserS},
	"T":            {parser.RFC5322LexerT, parser.RFC5322ParserT},
	"U":            {parser.RFC5322LexerU, parser.RFC5322ParserU},
	"V":            {parser.RFC5322LexerV, parser.RFC5322ParserV},
	"W":            {parser.RFC5322LexerW, parser.RFC5322ParserW},
	"X":            {parser.RFC5322LexerX, parser.RFC5322ParserX},
	"Y":            {parser.RFC5322LexerY, parser.RFC5322ParserY},
	"Z":            {parser.RFC5322LexerZ, parser.RFC5322ParserZ},
}
