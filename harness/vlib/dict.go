package vlib

import (
	_ "embed"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"

	"verif/harness/vlib/literals"
)

// The literals of the code that the harness was made for. Literals that the
// code under test has besides are likely to matter to what changed, so that
// the generators use them for names, texts, numbers and sizes. On unchanged
// code there are none.
//
//go:embed literals.txt
var knownLiterals string

var dict struct {
	sync.Once
	strings []string
	ints    []int64
	floats  []float64
}

func novel() {
	dict.Do(func() {
		repo := os.Getenv("VERIF_REPO")
		if repo == "" {
			repo = "/repo"
		}
		found, err := literals.Collect(repo)
		if err != nil {
			return
		}
		known := literals.Read(knownLiterals)
		strs, ints, floats := map[string]bool{}, map[int64]bool{}, map[float64]bool{}
		for k, n := range found {
			if n <= known[k] {
				continue
			}
			quoted, err := strconv.QuotedPrefix(k)
			if err != nil {
				continue
			}
			part := strings.SplitN(k[len(quoted)+1:], " ", 2)
			switch part[0] {
			case "string":
				if s, err := strconv.Unquote(part[1]); err == nil && s != "" {
					strs[s] = true
				}
			case "int":
				if i, err := strconv.ParseInt(part[1], 10, 64); err == nil && (i > 2 || i < -2) {
					ints[i] = true
				}
			case "float":
				if f, err := strconv.ParseFloat(part[1], 64); err == nil && f != 0 && f != 1 {
					floats[f] = true
				}
			}
		}
		for i := range ints {
			if i >= 0x80 && i <= 0x10ffff && utf8.ValidRune(rune(i)) && unicode.IsGraphic(rune(i)) {
				strs[string(rune(i))] = true
			}
		}
		for s := range strs {
			dict.strings = append(dict.strings, s)
			ints[int64(len(s))] = true
		}
		for i := range ints {
			dict.ints = append(dict.ints, i)
		}
		for f := range floats {
			dict.floats = append(dict.floats, f)
		}
		sort.Strings(dict.strings)
		sort.Slice(dict.ints, func(i, j int) bool { return dict.ints[i] < dict.ints[j] })
		sort.Float64s(dict.floats)
	})
}

// chance is true once in n times, and never for small draws.
func chance(t *rapid.T, n int) bool { return rapid.IntRange(0, n-1).Draw(t, "novel") == n/2 }

// NovelText sometimes, once in n times, gives a text made of a literal that is
// new in the code.
func NovelText(t *rapid.T, n int) (string, bool) {
	novel()
	if len(dict.strings) == 0 || !chance(t, n) {
		return "", false
	}
	s := rapid.SampledFrom(dict.strings).Draw(t, "literal")
	switch rapid.IntRange(0, 15).Draw(t, "made of it") {
	case 0:
		s += "x"
	case 1:
		s = "x" + s
	case 2:
		s = strings.ToUpper(s)
	case 3:
		s = strings.ToLower(s)
	case 4:
		s = s[:len(s)-1]
	case 5:
		s = "x " + s + " y"
	case 6:
		s += s
	case 7:
		if parts := strings.FieldsFunc(s, func(r rune) bool { return strings.ContainsRune(".%: /<>", r) }); len(parts) > 0 {
			s = rapid.SampledFrom(parts).Draw(t, "part")
		}
	case 8:
		s = strings.Title(s)
	case 9:
		o := rapid.SampledFrom(dict.strings).Draw(t, "and")
		s += rapid.SampledFrom([]string{"", ".", " "}).Draw(t, "between") + o
	}
	return strings.ToValidUTF8(s, "?"), true
}

// NovelInt does the same with numbers.
func NovelInt(t *rapid.T, n int) (int64, bool) {
	novel()
	if len(dict.ints) == 0 || !chance(t, n) {
		return 0, false
	}
	i := rapid.SampledFrom(dict.ints).Draw(t, "literal")
	switch rapid.IntRange(0, 7).Draw(t, "made of it") {
	case 0:
		i++
	case 1:
		i--
	case 2:
		i = -i
	case 3:
		i *= 2
	}
	return i, true
}

// NovelFloat does the same with doubles.
func NovelFloat(t *rapid.T, n int) (float64, bool) {
	novel()
	if len(dict.floats) > 0 && chance(t, n) {
		return rapid.SampledFrom(dict.floats).Draw(t, "literal") + rapid.SampledFrom([]float64{0, 0, 0.1, -0.1, 1, -1}).Draw(t, "plus"), true
	}
	i, ok := NovelInt(t, n)
	if !ok {
		return 0, false
	}
	return float64(i) + rapid.SampledFrom([]float64{0, 0, 0.5, -0.5}).Draw(t, "plus"), true
}

// NovelSize does the same with sizes from 2 to max.
func NovelSize(t *rapid.T, n, max int) (int, bool) {
	novel()
	var fit []int
	for _, i := range dict.ints {
		if i >= 3 && i <= int64(max)-2 {
			fit = append(fit, int(i))
		}
	}
	if len(fit) == 0 || !chance(t, n) {
		return 0, false
	}
	i := rapid.SampledFrom(fit).Draw(t, "literal")
	i += rapid.SampledFrom([]int{0, 1, 2, -1, 7, i / 2}).Draw(t, "plus")
	if i > max {
		i = max
	}
	return i, true
}

// Size draws a size from a list, or one that is new in the code.
func Size(t *rapid.T, label string, list []int, max int) int {
	if n, ok := NovelSize(t, 3, max); ok {
		return n
	}
	return rapid.SampledFrom(list).Draw(t, label)
}

// HasNovelSize says whether there are such sizes.
func HasNovelSize(max int) bool {
	novel()
	for _, i := range dict.ints {
		if i >= 3 && i <= int64(max)-2 {
			return true
		}
	}
	return false
}

// HasNovelText says whether there are such texts.
func HasNovelText() bool {
	novel()
	return len(dict.strings) > 0
}

// NovelWord does what NovelText does with texts that can be written anywhere:
// of letters, digits and signs.
func NovelWord(t *rapid.T, n int) (string, bool) {
	s, ok := NovelText(t, n)
	if !ok || s != strings.TrimSpace(s) || strings.IndexFunc(s, func(r rune) bool { return unicode.IsLetter(r) || unicode.IsDigit(r) }) < 0 {
		return "", false
	}
	if strings.IndexFunc(s, func(r rune) bool { return !unicode.IsGraphic(r) || r == '\ufffd' }) >= 0 {
		return "", false
	}
	return s, true
}

// Word draws a text from a list, or a word that is new in the code.
func Word(t *rapid.T, label string, list []string) string {
	if s, ok := NovelWord(t, 5); ok {
		return s
	}
	return rapid.SampledFrom(list).Draw(t, label)
}
