package kit

import "github.com/ixtendio/gofre/response"

// Parsed is what an event-stream parser reads from one block of the stream.
type Parsed struct {
	Name  string
	Data  []string
	Id    string
	Retry string
	hasID bool
	Count int // fields seen
	// what the standard says is dispatched, when the block has data
	Dispatched bool
}

// ParseEvents reads a stream by the rules of the HTML standard (section 9.2.6): lines end with LF, CR LF
// or CR, a blank line ends a block, the name of a field ends at the first colon and one space after it
// is dropped. Blocks without any field are not reported.
func ParseEvents(s string) (events []Parsed, rest string) {
	var cur Parsed
	start := 0
	begin := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '\n' && s[i] != '\r' {
			continue
		}
		line := s[start:i]
		if s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n' {
			i++
		}
		start = i + 1
		if line == "" {
			if cur.Count > 0 {
				cur.Dispatched = len(cur.Data) > 0
				events = append(events, cur)
			}
			cur = Parsed{}
			begin = start
			continue
		}
		field, value := line, ""
		for j := 0; j < len(line); j++ {
			if line[j] == ':' {
				field, value = line[:j], line[j+1:]
				if len(value) > 0 && value[0] == ' ' {
					value = value[1:]
				}
				break
			}
		}
		switch field {
		case "event":
			cur.Name = value
			cur.Count++
		case "data":
			cur.Data = append(cur.Data, value)
			cur.Count++
		case "id":
			cur.Id, cur.hasID = value, true
			cur.Count++
		case "retry":
			digits := len(value) > 0
			for j := 0; j < len(value); j++ {
				if value[j] < '0' || value[j] > '9' {
					digits = false
				}
			}
			if digits {
				cur.Retry = value
			}
			cur.Count++
		}
	}
	return events, s[begin:]
}

// EmptyEvent tells whether e has no field at all.
func EmptyEvent(e response.ServerSentEvent) bool {
	return e.Name == "" && len(e.Data) == 0 && e.Id == "" && e.Retry <= 0
}
