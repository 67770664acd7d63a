package main

import (
	"github.com/ProtonMail/go-rfc5322/parser"
)

// The typed callbacks of the listener, one pair per rule of the grammar.

func (l *listener) EnterQuotedChar(x *parser.QuotedCharContext) { l.typed("quotedChar", true, x) }
func (l *listener) ExitQuotedChar(x *parser.QuotedCharContext)  { l.typed("quotedChar", false, x) }
func (l *listener) EnterQuotedPair(x *parser.QuotedPairContext) { l.typed("quotedPair", true, x) }
func (l *listener) ExitQuotedPair(x *parser.QuotedPairContext)  { l.typed("quotedPair", false, x) }
func (l *listener) EnterFws(x *parser.FwsContext)               { l.typed("fws", true, x) }
func (l *listener) ExitFws(x *parser.FwsContext)                { l.typed("fws", false, x) }
func (l *listener) EnterCtext(x *parser.CtextContext)           { l.typed("ctext", true, x) }
func (l *listener) ExitCtext(x *parser.CtextContext)            { l.typed("ctext", false, x) }
func (l *listener) EnterCcontent(x *parser.CcontentContext)     { l.typed("ccontent", true, x) }
func (l *listener) ExitCcontent(x *parser.CcontentContext)      { l.typed("ccontent", false, x) }
func (l *listener) EnterComment(x *parser.CommentContext)       { l.typed("comment", true, x) }
func (l *listener) ExitComment(x *parser.CommentContext)        { l.typed("comment", false, x) }
func (l *listener) EnterCfws(x *parser.CfwsContext)             { l.typed("cfws", true, x) }
func (l *listener) ExitCfws(x *parser.CfwsContext)              { l.typed("cfws", false, x) }
func (l *listener) EnterAtext(x *parser.AtextContext)           { l.typed("atext", true, x) }
func (l *listener) ExitAtext(x *parser.AtextContext)            { l.typed("atext", false, x) }
func (l *listener) EnterAtom(x *parser.AtomContext)             { l.typed("atom", true, x) }
func (l *listener) ExitAtom(x *parser.AtomContext)              { l.typed("atom", false, x) }
func (l *listener) EnterDotAtom(x *parser.DotAtomContext)       { l.typed("dotAtom", true, x) }
func (l *listener) ExitDotAtom(x *parser.DotAtomContext)        { l.typed("dotAtom", false, x) }
func (l *listener) EnterQtext(x *parser.QtextContext)           { l.typed("qtext", true, x) }
func (l *listener) ExitQtext(x *parser.QtextContext)            { l.typed("qtext", false, x) }
func (l *listener) EnterQuotedContent(x *parser.QuotedContentContext) {
	l.typed("quotedContent", true, x)
}
func (l *listener) ExitQuotedContent(x *parser.QuotedContentContext) {
	l.typed("quotedContent", false, x)
}
func (l *listener) EnterQuotedValue(x *parser.QuotedValueContext)   { l.typed("quotedValue", true, x) }
func (l *listener) ExitQuotedValue(x *parser.QuotedValueContext)    { l.typed("quotedValue", false, x) }
func (l *listener) EnterQuotedString(x *parser.QuotedStringContext) { l.typed("quotedString", true, x) }
func (l *listener) ExitQuotedString(x *parser.QuotedStringContext)  { l.typed("quotedString", false, x) }
func (l *listener) EnterWord(x *parser.WordContext)                 { l.typed("word", true, x) }
func (l *listener) ExitWord(x *parser.WordContext)                  { l.typed("word", false, x) }
func (l *listener) EnterDateTime(x *parser.DateTimeContext)         { l.typed("dateTime", true, x) }
func (l *listener) ExitDateTime(x *parser.DateTimeContext)          { l.typed("dateTime", false, x) }
func (l *listener) EnterDayOfweek(x *parser.DayOfweekContext)       { l.typed("dayOfweek", true, x) }
func (l *listener) ExitDayOfweek(x *parser.DayOfweekContext)        { l.typed("dayOfweek", false, x) }
func (l *listener) EnterDayName(x *parser.DayNameContext)           { l.typed("dayName", true, x) }
func (l *listener) ExitDayName(x *parser.DayNameContext)            { l.typed("dayName", false, x) }
func (l *listener) EnterDay(x *parser.DayContext)                   { l.typed("day", true, x) }
func (l *listener) ExitDay(x *parser.DayContext)                    { l.typed("day", false, x) }
func (l *listener) EnterMonth(x *parser.MonthContext)               { l.typed("month", true, x) }
func (l *listener) ExitMonth(x *parser.MonthContext)                { l.typed("month", false, x) }
func (l *listener) EnterYear(x *parser.YearContext)                 { l.typed("year", true, x) }
func (l *listener) ExitYear(x *parser.YearContext)                  { l.typed("year", false, x) }
func (l *listener) EnterHour(x *parser.HourContext)                 { l.typed("hour", true, x) }
func (l *listener) ExitHour(x *parser.HourContext)                  { l.typed("hour", false, x) }
func (l *listener) EnterMinute(x *parser.MinuteContext)             { l.typed("minute", true, x) }
func (l *listener) ExitMinute(x *parser.MinuteContext)              { l.typed("minute", false, x) }
func (l *listener) EnterSecond(x *parser.SecondContext)             { l.typed("second", true, x) }
func (l *listener) ExitSecond(x *parser.SecondContext)              { l.typed("second", false, x) }
func (l *listener) EnterOffset(x *parser.OffsetContext)             { l.typed("offset", true, x) }
func (l *listener) ExitOffset(x *parser.OffsetContext)              { l.typed("offset", false, x) }
func (l *listener) EnterZone(x *parser.ZoneContext)                 { l.typed("zone", true, x) }
func (l *listener) ExitZone(x *parser.ZoneContext)                  { l.typed("zone", false, x) }
func (l *listener) EnterAddress(x *parser.AddressContext)           { l.typed("address", true, x) }
func (l *listener) ExitAddress(x *parser.AddressContext)            { l.typed("address", false, x) }
func (l *listener) EnterMailbox(x *parser.MailboxContext)           { l.typed("mailbox", true, x) }
func (l *listener) ExitMailbox(x *parser.MailboxContext)            { l.typed("mailbox", false, x) }
func (l *listener) EnterNameAddr(x *parser.NameAddrContext)         { l.typed("nameAddr", true, x) }
func (l *listener) ExitNameAddr(x *parser.NameAddrContext)          { l.typed("nameAddr", false, x) }
func (l *listener) EnterAngleAddr(x *parser.AngleAddrContext)       { l.typed("angleAddr", true, x) }
func (l *listener) ExitAngleAddr(x *parser.AngleAddrContext)        { l.typed("angleAddr", false, x) }
func (l *listener) EnterGroup(x *parser.GroupContext)               { l.typed("group", true, x) }
func (l *listener) ExitGroup(x *parser.GroupContext)                { l.typed("group", false, x) }
func (l *listener) EnterUnspaced(x *parser.UnspacedContext)         { l.typed("unspaced", true, x) }
func (l *listener) ExitUnspaced(x *parser.UnspacedContext)          { l.typed("unspaced", false, x) }
func (l *listener) EnterDisplayName(x *parser.DisplayNameContext)   { l.typed("displayName", true, x) }
func (l *listener) ExitDisplayName(x *parser.DisplayNameContext)    { l.typed("displayName", false, x) }
func (l *listener) EnterMailboxList(x *parser.MailboxListContext)   { l.typed("mailboxList", true, x) }
func (l *listener) ExitMailboxList(x *parser.MailboxListContext)    { l.typed("mailboxList", false, x) }
func (l *listener) EnterAddressList(x *parser.AddressListContext)   { l.typed("addressList", true, x) }
func (l *listener) ExitAddressList(x *parser.AddressListContext)    { l.typed("addressList", false, x) }
func (l *listener) EnterGroupList(x *parser.GroupListContext)       { l.typed("groupList", true, x) }
func (l *listener) ExitGroupList(x *parser.GroupListContext)        { l.typed("groupList", false, x) }
func (l *listener) EnterAddrSpec(x *parser.AddrSpecContext)         { l.typed("addrSpec", true, x) }
func (l *listener) ExitAddrSpec(x *parser.AddrSpecContext)          { l.typed("addrSpec", false, x) }
func (l *listener) EnterLocalPart(x *parser.LocalPartContext)       { l.typed("localPart", true, x) }
func (l *listener) ExitLocalPart(x *parser.LocalPartContext)        { l.typed("localPart", false, x) }
func (l *listener) EnterPort(x *parser.PortContext)                 { l.typed("port", true, x) }
func (l *listener) ExitPort(x *parser.PortContext)                  { l.typed("port", false, x) }
func (l *listener) EnterDomain(x *parser.DomainContext)             { l.typed("domain", true, x) }
func (l *listener) ExitDomain(x *parser.DomainContext)              { l.typed("domain", false, x) }
func (l *listener) EnterDomainLiteral(x *parser.DomainLiteralContext) {
	l.typed("domainLiteral", true, x)
}
func (l *listener) ExitDomainLiteral(x *parser.DomainLiteralContext) {
	l.typed("domainLiteral", false, x)
}
func (l *listener) EnterDtext(x *parser.DtextContext)               { l.typed("dtext", true, x) }
func (l *listener) ExitDtext(x *parser.DtextContext)                { l.typed("dtext", false, x) }
func (l *listener) EnterObsNoWSCTL(x *parser.ObsNoWSCTLContext)     { l.typed("obsNoWSCTL", true, x) }
func (l *listener) ExitObsNoWSCTL(x *parser.ObsNoWSCTLContext)      { l.typed("obsNoWSCTL", false, x) }
func (l *listener) EnterObsCtext(x *parser.ObsCtextContext)         { l.typed("obsCtext", true, x) }
func (l *listener) ExitObsCtext(x *parser.ObsCtextContext)          { l.typed("obsCtext", false, x) }
func (l *listener) EnterObsQtext(x *parser.ObsQtextContext)         { l.typed("obsQtext", true, x) }
func (l *listener) ExitObsQtext(x *parser.ObsQtextContext)          { l.typed("obsQtext", false, x) }
func (l *listener) EnterObsQP(x *parser.ObsQPContext)               { l.typed("obsQP", true, x) }
func (l *listener) ExitObsQP(x *parser.ObsQPContext)                { l.typed("obsQP", false, x) }
func (l *listener) EnterObsFWS(x *parser.ObsFWSContext)             { l.typed("obsFWS", true, x) }
func (l *listener) ExitObsFWS(x *parser.ObsFWSContext)              { l.typed("obsFWS", false, x) }
func (l *listener) EnterObsZone(x *parser.ObsZoneContext)           { l.typed("obsZone", true, x) }
func (l *listener) ExitObsZone(x *parser.ObsZoneContext)            { l.typed("obsZone", false, x) }
func (l *listener) EnterObsAngleAddr(x *parser.ObsAngleAddrContext) { l.typed("obsAngleAddr", true, x) }
func (l *listener) ExitObsAngleAddr(x *parser.ObsAngleAddrContext)  { l.typed("obsAngleAddr", false, x) }
func (l *listener) EnterObsRoute(x *parser.ObsRouteContext)         { l.typed("obsRoute", true, x) }
func (l *listener) ExitObsRoute(x *parser.ObsRouteContext)          { l.typed("obsRoute", false, x) }
func (l *listener) EnterObsDomainList(x *parser.ObsDomainListContext) {
	l.typed("obsDomainList", true, x)
}
func (l *listener) ExitObsDomainList(x *parser.ObsDomainListContext) {
	l.typed("obsDomainList", false, x)
}
func (l *listener) EnterObsMboxList(x *parser.ObsMboxListContext)   { l.typed("obsMboxList", true, x) }
func (l *listener) ExitObsMboxList(x *parser.ObsMboxListContext)    { l.typed("obsMboxList", false, x) }
func (l *listener) EnterObsAddrList(x *parser.ObsAddrListContext)   { l.typed("obsAddrList", true, x) }
func (l *listener) ExitObsAddrList(x *parser.ObsAddrListContext)    { l.typed("obsAddrList", false, x) }
func (l *listener) EnterObsGroupList(x *parser.ObsGroupListContext) { l.typed("obsGroupList", true, x) }
func (l *listener) ExitObsGroupList(x *parser.ObsGroupListContext)  { l.typed("obsGroupList", false, x) }
func (l *listener) EnterObsLocalPart(x *parser.ObsLocalPartContext) { l.typed("obsLocalPart", true, x) }
func (l *listener) ExitObsLocalPart(x *parser.ObsLocalPartContext)  { l.typed("obsLocalPart", false, x) }
func (l *listener) EnterObsDomain(x *parser.ObsDomainContext)       { l.typed("obsDomain", true, x) }
func (l *listener) ExitObsDomain(x *parser.ObsDomainContext)        { l.typed("obsDomain", false, x) }
func (l *listener) EnterEncodedWord(x *parser.EncodedWordContext)   { l.typed("encodedWord", true, x) }
func (l *listener) ExitEncodedWord(x *parser.EncodedWordContext)    { l.typed("encodedWord", false, x) }
func (l *listener) EnterCharset(x *parser.CharsetContext)           { l.typed("charset", true, x) }
func (l *listener) ExitCharset(x *parser.CharsetContext)            { l.typed("charset", false, x) }
func (l *listener) EnterEncoding(x *parser.EncodingContext)         { l.typed("encoding", true, x) }
func (l *listener) ExitEncoding(x *parser.EncodingContext)          { l.typed("encoding", false, x) }
func (l *listener) EnterToken(x *parser.TokenContext)               { l.typed("token", true, x) }
func (l *listener) ExitToken(x *parser.TokenContext)                { l.typed("token", false, x) }
func (l *listener) EnterTokenChar(x *parser.TokenCharContext)       { l.typed("tokenChar", true, x) }
func (l *listener) ExitTokenChar(x *parser.TokenCharContext)        { l.typed("tokenChar", false, x) }
func (l *listener) EnterEncodedText(x *parser.EncodedTextContext)   { l.typed("encodedText", true, x) }
func (l *listener) ExitEncodedText(x *parser.EncodedTextContext)    { l.typed("encodedText", false, x) }
func (l *listener) EnterEncodedChar(x *parser.EncodedCharContext)   { l.typed("encodedChar", true, x) }
func (l *listener) ExitEncodedChar(x *parser.EncodedCharContext)    { l.typed("encodedChar", false, x) }
func (l *listener) EnterCrlf(x *parser.CrlfContext)                 { l.typed("crlf", true, x) }
func (l *listener) ExitCrlf(x *parser.CrlfContext)                  { l.typed("crlf", false, x) }
func (l *listener) EnterWsp(x *parser.WspContext)                   { l.typed("wsp", true, x) }
func (l *listener) ExitWsp(x *parser.WspContext)                    { l.typed("wsp", false, x) }
func (l *listener) EnterVchar(x *parser.VcharContext)               { l.typed("vchar", true, x) }
func (l *listener) ExitVchar(x *parser.VcharContext)                { l.typed("vchar", false, x) }
func (l *listener) EnterAlpha(x *parser.AlphaContext)               { l.typed("alpha", true, x) }
func (l *listener) ExitAlpha(x *parser.AlphaContext)                { l.typed("alpha", false, x) }

// start applies one rule of the grammar to what the parser reads.
var start = map[string]func(p *parser.RFC5322Parser) any{
	"quotedChar":    func(p *parser.RFC5322Parser) any { return p.QuotedChar() },
	"quotedPair":    func(p *parser.RFC5322Parser) any { return p.QuotedPair() },
	"fws":           func(p *parser.RFC5322Parser) any { return p.Fws() },
	"ctext":         func(p *parser.RFC5322Parser) any { return p.Ctext() },
	"ccontent":      func(p *parser.RFC5322Parser) any { return p.Ccontent() },
	"comment":       func(p *parser.RFC5322Parser) any { return p.Comment() },
	"cfws":          func(p *parser.RFC5322Parser) any { return p.Cfws() },
	"atext":         func(p *parser.RFC5322Parser) any { return p.Atext() },
	"atom":          func(p *parser.RFC5322Parser) any { return p.Atom() },
	"dotAtom":       func(p *parser.RFC5322Parser) any { return p.DotAtom() },
	"qtext":         func(p *parser.RFC5322Parser) any { return p.Qtext() },
	"quotedContent": func(p *parser.RFC5322Parser) any { return p.QuotedContent() },
	"quotedValue":   func(p *parser.RFC5322Parser) any { return p.QuotedValue() },
	"quotedString":  func(p *parser.RFC5322Parser) any { return p.QuotedString() },
	"word":          func(p *parser.RFC5322Parser) any { return p.Word() },
	"dateTime":      func(p *parser.RFC5322Parser) any { return p.DateTime() },
	"dayOfweek":     func(p *parser.RFC5322Parser) any { return p.DayOfweek() },
	"dayName":       func(p *parser.RFC5322Parser) any { return p.DayName() },
	"day":           func(p *parser.RFC5322Parser) any { return p.Day() },
	"month":         func(p *parser.RFC5322Parser) any { return p.Month() },
	"year":          func(p *parser.RFC5322Parser) any { return p.Year() },
	"hour":          func(p *parser.RFC5322Parser) any { return p.Hour() },
	"minute":        func(p *parser.RFC5322Parser) any { return p.Minute() },
	"second":        func(p *parser.RFC5322Parser) any { return p.Second() },
	"offset":        func(p *parser.RFC5322Parser) any { return p.Offset() },
	"zone":          func(p *parser.RFC5322Parser) any { return p.Zone() },
	"address":       func(p *parser.RFC5322Parser) any { return p.Address() },
	"mailbox":       func(p *parser.RFC5322Parser) any { return p.Mailbox() },
	"nameAddr":      func(p *parser.RFC5322Parser) any { return p.NameAddr() },
	"angleAddr":     func(p *parser.RFC5322Parser) any { return p.AngleAddr() },
	"group":         func(p *parser.RFC5322Parser) any { return p.Group() },
	"unspaced":      func(p *parser.RFC5322Parser) any { return p.Unspaced() },
	"displayName":   func(p *parser.RFC5322Parser) any { return p.DisplayName() },
	"mailboxList":   func(p *parser.RFC5322Parser) any { return p.MailboxList() },
	"addressList":   func(p *parser.RFC5322Parser) any { return p.AddressList() },
	"groupList":     func(p *parser.RFC5322Parser) any { return p.GroupList() },
	"addrSpec":      func(p *parser.RFC5322Parser) any { return p.AddrSpec() },
	"localPart":     func(p *parser.RFC5322Parser) any { return p.LocalPart() },
	"port":          func(p *parser.RFC5322Parser) any { return p.Port() },
	"domain":        func(p *parser.RFC5322Parser) any { return p.Domain() },
	"domainLiteral": func(p *parser.RFC5322Parser) any { return p.DomainLiteral() },
	"dtext":         func(p *parser.RFC5322Parser) any { return p.Dtext() },
	"obsNoWSCTL":    func(p *parser.RFC5322Parser) any { return p.ObsNoWSCTL() },
	"obsCtext":      func(p *parser.RFC5322Parser) any { return p.ObsCtext() },
	"obsQtext":      func(p *parser.RFC5322Parser) any { return p.ObsQtext() },
	"obsQP":         func(p *parser.RFC5322Parser) any { return p.ObsQP() },
	"obsFWS":        func(p *parser.RFC5322Parser) any { return p.ObsFWS() },
	"obsZone":       func(p *parser.RFC5322Parser) any { return p.ObsZone() },
	"obsAngleAddr":  func(p *parser.RFC5322Parser) any { return p.ObsAngleAddr() },
	"obsRoute":      func(p *parser.RFC5322Parser) any { return p.ObsRoute() },
	"obsDomainList": func(p *parser.RFC5322Parser) any { return p.ObsDomainList() },
	"obsMboxList":   func(p *parser.RFC5322Parser) any { return p.ObsMboxList() },
	"obsAddrList":   func(p *parser.RFC5322Parser) any { return p.ObsAddrList() },
	"obsGroupList":  func(p *parser.RFC5322Parser) any { return p.ObsGroupList() },
	"obsLocalPart":  func(p *parser.RFC5322Parser) any { return p.ObsLocalPart() },
	"obsDomain":     func(p *parser.RFC5322Parser) any { return p.ObsDomain() },
	"encodedWord":   func(p *parser.RFC5322Parser) any { return p.EncodedWord() },
	"charset":       func(p *parser.RFC5322Parser) any { return p.Charset() },
	"encoding":      func(p *parser.RFC5322Parser) any { return p.Encoding() },
	"token":         func(p *parser.RFC5322Parser) any { return p.Token() },
	"tokenChar":     func(p *parser.RFC5322Parser) any { return p.TokenChar() },
	"encodedText":   func(p *parser.RFC5322Parser) any { return p.EncodedText() },
	"encodedChar":   func(p *parser.RFC5322Parser) any { return p.EncodedChar() },
	"crlf":          func(p *parser.RFC5322Parser) any { return p.Crlf() },
	"wsp":           func(p *parser.RFC5322Parser) any { return p.Wsp() },
	"vchar":         func(p *parser.RFC5322Parser) any { return p.Vchar() },
	"alpha":         func(p *parser.RFC5322Parser) any { return p.Alpha() },
}
