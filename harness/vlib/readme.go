package vlib

import (
	"fmt"
	"strings"
)

// Readme is what a generated README says about processors.
type Readme struct {
	Index    []string
	Sections []ReadmeSection
}

// ReadmeSection documents one processor.
type ReadmeSection struct {
	Name, Description string
	Rows              []ReadmeRow
}

// ReadmeRow documents one option.
type ReadmeRow struct {
	Name                       string
	Required, Optional         bool
	Type, Default, Description string
}

// ParseReadme reads the part of a README below "## Processors". A line that
// starts with ### starts a section, and one that starts with | a table row.
func ParseReadme(text string) (*Readme, error) {
	_, text, found := strings.Cut(text, "\n## Processors\n")
	if !found {
		return nil, fmt.Errorf("no heading Processors")
	}
	r := &Readme{}
	var desc []string
	table := 0 // 1: after the header, 2: after the separator, 3: after the table.
	end := func() {
		if n := len(r.Sections); n > 0 {
			r.Sections[n-1].Description = strings.TrimSpace(strings.Join(desc, "\n"))
		}
		desc, table = nil, 0
	}
	for _, line := range strings.Split(text, "\n") {
		switch {
		case strings.HasPrefix(line, "### "):
			end()
			r.Sections = append(r.Sections, ReadmeSection{Name: strings.TrimSpace(line[4:])})
		case len(r.Sections) == 0:
			if strings.TrimSpace(line) == "" {
				continue
			}
			name, anchor, found := strings.Cut(strings.TrimPrefix(line, "- ["), "](#")
			if !found || !strings.HasPrefix(line, "- [") || !strings.HasSuffix(anchor, ")") || strings.TrimSuffix(anchor, ")") != name {
				return nil, fmt.Errorf("unexpected line in the index: %q", line)
			}
			r.Index = append(r.Index, name)
		case strings.HasPrefix(line, "|"):
			cells := Cells(line)
			switch table {
			case 0:
				if got := strings.Join(cells, "|"); got != "Option|Required|Optional|Type|Default|Description" {
					return nil, fmt.Errorf("unexpected table header %q", line)
				}
				table = 1
			case 1:
				if len(cells) != 6 || strings.Trim(line, "|- :") != "" {
					return nil, fmt.Errorf("unexpected separator %q", line)
				}
				table = 2
			case 2:
				if len(cells) != 6 {
					return nil, fmt.Errorf("a row with %d cells: %q", len(cells), line)
				}
				for _, c := range cells[1:3] {
					if c != "" && c != "x" {
						return nil, fmt.Errorf("unexpected mark in %q", line)
					}
				}
				s := &r.Sections[len(r.Sections)-1]
				s.Rows = append(s.Rows, ReadmeRow{Name: cells[0], Required: cells[1] == "x", Optional: cells[2] == "x",
					Type: cells[3], Default: cells[4], Description: cells[5]})
			default:
				return nil, fmt.Errorf("a second table in the section of %s: %q", r.Sections[len(r.Sections)-1].Name, line)
			}
		case table > 0:
			table = 3
			if strings.TrimSpace(line) != "" {
				return nil, fmt.Errorf("text after the table of %s: %q", r.Sections[len(r.Sections)-1].Name, line)
			}
		default:
			desc = append(desc, line)
		}
	}
	end()
	return r, nil
}

// Cells splits a table row at its unescaped bars.
func Cells(line string) []string {
	line = strings.TrimSpace(line)
	line = strings.TrimPrefix(line, "|")
	var cells []string
	var sb strings.Builder
	for i := 0; i < len(line); i++ {
		switch {
		case line[i] == '\\' && i+1 < len(line) && line[i+1] == '|':
			sb.WriteByte('|')
			i++
		case line[i] == '|':
			cells = append(cells, strings.TrimSpace(sb.String()))
			sb.Reset()
		default:
			sb.WriteByte(line[i])
		}
	}
	if s := strings.TrimSpace(sb.String()); s != "" {
		cells = append(cells, s)
	}
	return cells
}

// OneLine is text as one line of words.
func OneLine(s string) string { return strings.Join(strings.Fields(s), " ") }
