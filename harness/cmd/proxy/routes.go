package main

import (
	"bytes"
	"encoding/json"
	"io"
	"net/http"

	"github.com/julienschmidt/httprouter"

	"verifharness/prog"
)

// routing adds routes that tell what they get, and puts a handler around all routes.
func routing(router *httprouter.Router) http.Handler {
	for _, method := range prog.OwnMethods {
		router.Handle(method, "/own/:a/*b", func(w http.ResponseWriter, req *http.Request, params httprouter.Params) {
			body, err := io.ReadAll(req.Body)
			e := prog.Echo{Method: req.Method, URI: req.RequestURI, A: params.ByName("a"), B: params.ByName("b"), Header: req.Header, Body: body}
			if err != nil {
				e.Err = err.Error()
			}
			w.WriteHeader(prog.OwnStatus)
			_ = json.NewEncoder(w).Encode(e)
		})
	}
	return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		w.Header().Set("X-Reached", "1")
		if req.Header.Get("X-Block") != "" {
			w.WriteHeader(http.StatusForbidden)
			return
		}
		if req.Header.Get("X-Peek") != "" {
			body, err := io.ReadAll(req.Body)
			w.Header().Set("X-Peek", prog.Sum(body))
			req.Body = io.NopCloser(io.MultiReader(bytes.NewReader(body), end{err}))
		}
		router.ServeHTTP(w, req)
	})
}

type end struct{ err error }

func (e end) Read([]byte) (int, error) {
	if e.err != nil {
		return 0, e.err
	}
	return 0, io.EOF
}
