//go:build go1.24

// Code generated by tools/gen/genreexport.py. DO NOT EDIT.

package zctx

import real "context"

var Background = real.Background

type CancelCauseFunc = real.CancelCauseFunc
type CancelFunc = real.CancelFunc

var Canceled = real.Canceled

type Context = real.Context

var DeadlineExceeded = real.DeadlineExceeded
var TODO = real.TODO
var WithValue = real.WithValue
