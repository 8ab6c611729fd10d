package prog

import (
	"encoding/json"
	"fmt"
	"net"
	"time"
)

// ReadHeld reads what the program holds from its socket.
func (p *Program) ReadHeld(socket string) (h Held, err error) {
	if err := p.Check(); err != nil {
		return h, err
	}
	conn, err := net.DialTimeout("unix", socket, 10*time.Second)
	if err == nil {
		_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
		err = json.NewDecoder(conn).Decode(&h)
		conn.Close()
	}
	if err != nil {
		if e := p.Check(); e != nil {
			return h, e
		}
		return h, fmt.Errorf("reading what the program holds: %v", err)
	}
	return h, nil
}
