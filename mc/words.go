package main

// Word-level spaces: letters, syllables, tones and their spellings.

import (
	"fmt"
	"strings"
	"unicode"
)

var initials = toks("b c ch d f g h j k l m n p r s sh t")

// desinences are the vowel sequences (and final q) of a Toaq syllable.
var desinences = toks(`aq ai ao a uq uaq uai uao ua ui uoq uoi uo ueq ue u
iq iaq iai iao ia iuq iu ioi ioq io ieq ie i
oq oaq oai oao oa oi oeq oe o
eq eaq eai eao ea ei eoq eo eu e`)

var functionWords = toks(`bi pa da ka so ba moq ga go fi cu ta bei hu ju ku ki kio keo je
lu li lo ma tio mi shu mo na jei po ra ru ri roi ro re ke tu sia sa hi ja to teo`)

const tones = `-/V?^\~`

var digitTone = map[byte]byte{'-': '1', '/': '2', 'V': '3', '?': '4', '^': '5', '\\': '6', '~': '7'}
var combining = map[byte][]string{'-': {"\u0304"}, '/': {"\u0301"}, 'V': {"\u030c", "\u0306"},
	'?': {"\u0309"}, '^': {"\u0302"}, '\\': {"\u0300"}, '~': {"\u0303"}}

var breves = map[rune]string{'a': "ă", 'A': "Ă", 'u': "ŭ", 'U': "Ŭ", 'i': "ĭ", 'I': "Ĭ", 'o': "ŏ", 'O': "Ŏ", 'e': "ĕ", 'E': "Ĕ"}

// spell returns the spellings of a syllable with a tone (0 for none). The
// first is the ASCII form with the mark at the end.
func spell(ini, des string, tone byte) []string {
	var out []string
	dot := func(s string) []string {
		if strings.ContainsRune(s, 'i') {
			return []string{s, strings.ReplaceAll(s, "i", "ı")}
		}
		return []string{s}
	}
	if tone == 0 {
		return dot(ini + des)
	}
	v, rest := rune(des[0]), des[1:]
	t, d := string(tone), string(digitTone[tone])
	for _, x := range dot(ini + des) {
		out = append(out, x+t, x+d)
	}
	for _, r := range dot(rest) {
		for _, v := range dot(string(v)) {
			if rest != "" {
				out = append(out, ini+v+t+r, ini+v+d+r)
			}
			for _, c := range combining[tone] {
				out = append(out, ini+v+c+r)
			}
		}
		out = append(out, ini+toned(v, tone)+r)
		if tone == 'V' {
			out = append(out, ini+breves[v]+r)
		}
	}
	return dedup(out)
}

// cases returns the letter cases of a word: as is, capital, all capitals, alternating.
func letterCases(s string) []string {
	up := func(f func(i int) bool) string {
		var b strings.Builder
		i := 0
		for _, r := range s {
			if unicode.IsLetter(r) {
				if f(i) && r != 'ı' && r != 'V' {
					r = unicode.ToUpper(r)
				}
				i++
			}
			b.WriteRune(r)
		}
		return b.String()
	}
	return dedup([]string{s, up(func(i int) bool { return i == 0 }), up(func(i int) bool { return true }),
		up(func(i int) bool { return i%2 == 1 })})
}

// wordContexts are the contexts a word is put in; @ is the word.
var wordContexts = []string{"@", "gi? @", "@ji/", "gi? @ ji/", "gi?@"}

// words emits every syllable in every tone, spelling, case and context.
// Quick takes all syllables in one spelling and all spellings of some.
func emitSyllables(quick bool, contexts []string, emit func(string) bool) {
	put := func(s string) bool {
		for _, c := range contexts {
			if !emit(strings.ReplaceAll(c, "@", s)) {
				return false
			}
		}
		return true
	}
	for _, ini := range initials {
		for di, des := range desinences {
			for ti := -1; ti < len(tones); ti++ {
				var t byte
				if ti >= 0 {
					t = tones[ti]
				}
				sp := spell(ini, des, t)
				if quick && ini != "k" && ini != "sh" && di != 10 && di != 28 {
					sp = []string{sp[0], sp[len(sp)-1]}
				}
				for _, s := range sp {
					cs := letterCases(s)
					if quick && ini != "sh" && des != "io" {
						cs = cs[:1]
					}
					for _, x := range cs {
						if !put(x) {
							return
						}
					}
				}
			}
		}
	}
}

// functionContexts are contexts in which function words have a place.
var functionContexts = []string{"@", "gi? @", "@ gi?", "@ ji/", "gi? @ ji/", "ji/ @ gi?", "ji/ @ ji/ gi?", "to @ gi? to gi?",
	"gi? ji/ @ ji/", "gi? to @ ji/ to ji/", "mo? gi? @", "kio gi? @", "po? ji/ @", "mi? gi? @ ji/", "@ ji/ bi gi?",
	"gi? @ gi? ji/", "@gi?", "gi?@", "gi- @", "gi? @ gi? @ teo", "@ @ gi? @ gi?"}

func emitFunctionWords(quick bool, emit func(string) bool) {
	split := func(f string) (string, string) {
		for i, r := range f {
			if strings.ContainsRune("aeiou", r) {
				return f[:i], f[i:]
			}
		}
		return f, ""
	}
	for _, f := range functionWords {
		ini, des := split(f)
		for ti := -1; ti < len(tones); ti++ {
			var t byte
			if ti >= 0 {
				t = tones[ti]
			}
			for _, s := range spell(ini, des, t) {
				for _, x := range letterCases(s) {
					for _, c := range functionContexts {
						if !emit(strings.ReplaceAll(c, "@", x)) {
							return
						}
					}
				}
			}
		}
	}
}

// emitRunes puts every character in a few contexts.
func emitRunes(max rune, emit func(string) bool) {
	for r := rune(0); r <= max; r++ {
		for _, c := range []string{"%s", "gi?%s", "gi? %s ji/", "g%s?", "gi%s", "%sgi?"} {
			if !emit(fmt.Sprintf(c, string(r))) {
				return
			}
		}
	}
	for b := 0; b < 256; b++ {
		for _, c := range []string{"%s", "gi?%s", "gi? %s ji/", "g%s?", "gi%s", "%sgi?"} {
			if !emit(fmt.Sprintf(c, string([]byte{byte(b)}))) {
				return
			}
		}
	}
}

// charSpaces are prefix trees over characters.
func charSpaces(quick bool) []space {
	d := func(q, t int) int {
		if quick {
			return q
		}
		return t
	}
	all := "a b c d e f g h i j k l m n o p q r s t u v w x y z"
	return []space{
		{name: "vowels", prefix: "k", tokens: toks("a e i o u q /"), depth: d(5, 6)},
		{name: "vowels-toned", prefix: "k", tokens: toks("a í o u q ? \u0304"), depth: d(4, 6)},
		{name: "tones", tokens: append(toks("g i o V ? 4 - 1 ~ \u0301 í ı"), " "), depth: d(4, 6)},
		{name: "marks", prefix: "gi", tokens: append(toks("- / V ? ^ \\ ~ 1 2 3 4 5 6 7 8 0 \u0304 \u0301 \u030c \u0306 \u0309 \u0302 \u0300 \u0303 \u0308 o q m"), " "), depth: d(3, 4)},
		{name: "bytes", tokens: append(toks("g i ? / \xff \xc3 \xad \ufffd \x00 , ' «"), " ", "\n", "\t", "\r"), depth: d(4, 5)},
		{name: "bytes-after", prefix: "gi?", tokens: append(toks("gi? ji/ \xff \xc3 \xad \ufffd , . ki kio"), " ", "\n"), depth: d(4, 5)},
		{name: "letters", tokens: toks(all), depth: d(3, 4)},
		{name: "letters-case", tokens: toks("a b c d g h i j k l m n o p q r s t u A B C D G H I J K L M N O P Q R S T U ? /"), depth: d(2, 3)},
		{name: "spacing", prefix: "gi?", tokens: append(toks(". , : ! ; ji/ na « » “ ” ' \" ( ) — ¡ … - / ? moq da"), " ", "\n"), depth: d(3, 4)},
		{name: "compounds", tokens: append(toks("gi? gi/ giV gi^ gi~ gi\\ gi- gi kua1 na to"), " "), depth: d(4, 6)},
		{name: "questions", prefix: "gi? ", tokens: append(toks("moq mo q ? moq? ji/ . !"), " "), depth: d(5, 6)},
	}
}

// exploreParsing covers all spaces for properties of parsing.
func exploreParsing(h *H) {
	for _, s := range grammarSpaces(h.quick()) {
		h.texts(s)
	}
	exploreMods(h)
	exploreWords(h)
	h.longTexts()
}

func exploreWords(h *H) {
	for _, s := range charSpaces(h.quick()) {
		h.texts(s)
	}
	h.texts(space{name: "all-words", tokens: append(toks("gi? ji/ gi- giV gi^ gi~ gi\\ kiaq? , lu? liV lo/ ma^ tio\\ mi? shu~ mo/ po? jei/ luV mo^"), functionWords...), sep: " ", depth: 2})
	h.cases("syllables", "every initial x desinence x tone (spellings and cases: all of some in quick, all in thorough) in 4 contexts", func(emit func(string) bool) {
		emitSyllables(h.quick(), wordContexts, emit)
	})
	h.cases("function-words", "every function word x tone x spelling x case in every context", func(emit func(string) bool) {
		emitFunctionWords(h.quick(), emit)
	})
	max := rune(0x3100)
	if !h.quick() {
		max = 0x10ffff
	}
	h.cases("runes", fmt.Sprintf("every character to U+%04X and every byte in 6 contexts", max), func(emit func(string) bool) {
		emitRunes(max, emit)
	})
}
