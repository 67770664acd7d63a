package main

// dateFields are notable ways to write each field of a date-time; the first is the usual one.
var dateFields = [][]string{
	{"", "Mon, ", "Sun, ", "sat,"},
	{"1", "0", "00", "01", "9", "10", "28", "29", "30", "31", "32", "45", "99"},
	{" Jan ", " Feb ", " Mar ", " Apr ", " May ", " Jun ", " Jul ", " Aug ", " Sep ", " Oct ", " Nov ", " Dec ", " dec ", "FEB"},
	{"2001", "0000", "0001", "0099", "0100", "1600", "1899", "1900", "1969", "1970", "2000", "2004", "2038", "2100", "9999", "00", "01", "26", "27", "28", "49", "50", "69", "70", "99"},
	{" 12:", " 0:", " 00:", " 1:", " 23:", " 24:", " 25:", " 48:", " 99:"},
	{"34", "0", "00", "5", "59", "60", "61", "99"},
	{"", ":00", ":0", ":07", ":59", ":60", ":61", ":99"},
	{" +0000", "", " -0000", " 0000", " +0001", " -0001", " -0030", " +0099", " +0100", " -0500", " 0530", " +1200", " -1200", " +1400", " +2359", " -2400", " +9999", " -9999",
		" UT", " UTC", " GMT", " EST", " EDT", " CST", " CDT", " MST", " MDT", " PST", " PDT", " gmt", " pSt"},
}

// fieldPairs calls f with the usual date but for two fields, for part i of parts.
func fieldPairs(i, parts int, f func(string)) {
	k := 0
	for a := range dateFields {
		for b := range dateFields[:a] {
			for x := range dateFields[a] {
				for y := range dateFields[b] {
					if k++; k%parts == i {
						f(fieldDate(map[int]int{a: x, b: y}))
					}
				}
			}
		}
	}
}

// fieldDate writes a date with the given choices for some of its fields.
func fieldDate(pick map[int]int) (s string) {
	for k, f := range dateFields {
		s += f[pick[k]]
	}
	return s
}

// anyFields is a date with n notable fields.
func (c *Ctx) anyFields(n int) string {
	pick := map[int]int{}
	for len(pick) < n {
		k := c.rng.Intn(len(dateFields))
		pick[k] = c.rng.Intn(len(dateFields[k]))
	}
	return fieldDate(pick)
}
