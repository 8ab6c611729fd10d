package prog

import (
	"errors"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// Tag says what the converter does with a span.
const Tag = "convert"

// Modes are the values of the tag.
var Modes = []string{"keep", "edit", "tags", "notags", "move", "error", "fail", "failwith", "id0", "trace0"}

// Convert is the converter of the program.
func Convert(s proxy.Span) (proxy.Span, error) {
	switch s.Tags[Tag] {
	case "edit": // in place
		s.Name = strings.ToUpper(s.Name) + "!"
		s.Service += "-edited"
		s.Timestamp += 1234567
		s.Duration += 1001
		s.Tags["edited"] = "yes"
		delete(s.Tags, "gone")
	case "tags":
		tags := map[string]string{"new": "tag"}
		for k, v := range s.Tags {
			tags["old."+k] = v
		}
		s.Tags = tags
	case "notags":
		s.Tags = nil
	case "move":
		s.Trace ^= 1 << 62
		s.Id ^= 1 << 61
		s.Parent = 0
	case "error":
		s.Tags["error"] = "true"
	case "fail":
		return proxy.Span{}, errors.New("this span cannot be converted")
	case "failwith":
		s.Name = "must not be reported"
		return s, errors.New("this span cannot be converted")
	case "id0":
		s.Id = 0
	case "trace0":
		s.Trace = 0
	}
	return s, nil
}
