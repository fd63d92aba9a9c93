package main

import "strings"

// phrases splits tokens at semicolons.
func phrases(s string) []string {
	var out []string
	for _, p := range strings.Split(s, ";") {
		if p = strings.TrimSpace(p); p != "" {
			out = append(out, p)
		}
	}
	return out
}

// logicSpaces are the spaces for properties of formulas. Tokens are phrases.
func logicSpaces(quick bool) []space {
	d := func(q, t int) int {
		if quick {
			return q
		}
		return t
	}
	sp := func(name, prefix, tokens string, depth int) space {
		return space{name: name, prefix: prefix, tokens: phrases(tokens), sep: " ", depth: depth}
	}
	return []space{
		sp("arguments", "gi?", `ji/; do/; hoa/; sa; ke; hi; ru; roi; go; po/`, d(5, 6)),
		sp("quantifiers", "gi?", `ke; ja; sa; tu; sia; hi; ji/; do/; giV; po/`, d(4, 6)),
		sp("prenex", "", `sa do/; do/; ji/; bi; pa; gi?; do?; ru; na; hi ji/`, d(5, 7)),
		sp("connectives", "gi?", `ji/; suq/; ru; ra; ri; roi; ro; re; to; na gi?`, d(5, 6)),
		sp("argument-tree", "gi?", `ji/; suq/; sa hoq/; hi hoq/; to ru; to ra; to roi; to; ru; roi`, d(5, 7)),
		sp("relative", "gi? sa ji/", `giV; luV; hoa/; do/; gi?; ru; na; ji/; hi suq/; ke do/`, d(5, 6)),
		sp("relative-var", "ke do/ pa gi?", `do/; giV; doV; hoaV; hoa/; ru; hi ji/; na; ji/`, d(5, 6)),
		sp("relative-tree", "gi? ji/", `to ru giV; to giV; giV ji/; luV gi?; hoa/; ru; ra; na; doV; sa suq/ bi`, d(5, 6)),
		sp("prepositions", "", `sa do/; ji/; ne\ ji/; ne\ sa do/; do/; pa; bi; gi?; po/ do/; gi~; hi suq/; ru`, d(5, 6)),
		sp("preposition-tree", "sa do/ pa gi?", `ne\; do/; to ru; to; ji/; ru; ra; gi\; gi~; hi ji/`, d(5, 6)),
		sp("adverbs", "gi?", `gi~; ji/; sa do/; do/; ru; ra; to ru; to; gi~ gi?; po/ do/`, d(5, 6)),
		sp("linked", "gi?", `fi; go; cu; ta; ji/; do/; sa do/; ru; roi; to ru; to`, d(5, 6)),
		sp("linked-prenex", "", `fi ji/; go ji/; cu suq/; ta suq/; sa do/; fi do/; pa; bi; gi?; ru`, d(5, 6)),
		sp("termsets", "gi? to ru", `ji/; suq/; do/; sa do/; to; gi~; go ji/; ne\ ji/`, d(6, 8)),
		sp("lu", "gi?", `lu/; lu?; li/; lo?; hoa/; hoa?; gi?; ji/; do/; na; ru; sa do/ bi`, d(5, 6)),
		sp("lambda", "", `lu? hoa?; lu? gi?; lu? ja do/ bi do?; lu? ja do/ pa; hoa/; do/; ji/; na; gi?; shu/ gi?; ru`, d(4, 6)),
		sp("lambda-args", "gi?", `lu/ hoa?; lu~ hoa?; lu\ hoa?; lu~ ja do/ bi do?; hoa/; do/; ji/; na; shu/ gi? ga; gi^; sa`, d(4, 6)),
		sp("content", "gi?", `gi^; lu^; li^; gi?; ji/; do/; sa do/; hi ji/; hoa/; na; ru; ra`, d(5, 6)),
		sp("quotes", "gi?", `shu/; mi/; mo/; teo; ga; gi?; ji/; roi; po/; jei/; giV; sa`, d(5, 6)),
		sp("quote-predicates", "", `shu?; mi?; mo?; teo; ga; gi?; ji/; ru; gi~; po?; jei?; da`, d(5, 6)),
		sp("serial", "", `gi?; do?; hoa?; po?; ji/; shu? gi? ga; lu? gi?; na; ru; to ru; to`, d(5, 6)),
		sp("serial-args", "gi?", `gi/; gi?; do/; do?; hoa?; po/ ji/ ga; giV; giV gi?; ru; sa; to ru; to`, d(4, 6)),
		sp("identity", "gi? ke do/", `jeqVtu-; jeq^tu-; hoa/; do/; shu/ gi? ga; ji/; roi; na; meaV; gi^ na; ru`, d(5, 6)),
		sp("identity2", "sa do/ pa gi?", `jeq/tu-; jeqVtu-; mea/; hoa/; do/; jei/; shu/ gi? ga; roi; na; ke; sa; po/`, d(4, 6)),
		sp("roi", "gi?", `ji/; sa do/; do/; hi suq/; roi; ru; to roi; to; po/; ke hoq/`, d(5, 7)),
		sp("hi", "gi?", `hi; ji/; do/; po/; giV; gi^; hoa/; sa do/; na; ru; lu/ gi?`, d(5, 6)),
		sp("hi-lifted", "sa do/ pa gi?", `hi ji/ luV gi? do/; hi giV do/; na; da gi?; ke do/; shu/ gi? ga; do/; ru; ke suq/; giV`, d(5, 6)),
		sp("discourse", "", `gi?; ji/; da; je; ru; ra; sa do/ bi; do/; na; giV; ri; to ru`, d(4, 6)),
		sp("discourse2", "", `gi? ji/ da; gi? do/ da; sa do/ bi gi? do/ da; ji/; hi ji/; gi? hi ji/ da; ru; to ru; to; gi~`, d(4, 6)),
		sp("statements", "ji/ pa", `gi?; ji/; sa do/ pa; do/; na; ru; ra; to ru; to; bi; ri`, d(5, 6)),
		sp("mods", "gi?", `ji/; kio gi? da ki; ju gi? hi ji/ na; hu ji/; bei; ,; da; ru; sa do/`, d(4, 5)),
		sp("deep", "sa do/ pa gi? do/", `ne\ po/ do/; po/ do/; gi~; hi po/ do/; ru; ne\ sa ji/; go; do/; giV do/; ke ji/ giV do/ na`, d(4, 6)),
		sp("names", "gi?", `dom/; do/maq-; domaq/; Do/; doq/; doe/; doi/; dóı; daq/; sa; DO/; ru`, d(4, 6)),
	}
}

func exploreLogic(h *H) {
	for _, s := range logicSpaces(h.quick()) {
		h.texts(s)
	}
}
