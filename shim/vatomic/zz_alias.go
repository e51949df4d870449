// Code generated by genshim. DO NOT EDIT.

package vatomic

import real "sync/atomic"

var AndInt32 = real.AndInt32
var AndInt64 = real.AndInt64
var AndUint32 = real.AndUint32
var AndUint64 = real.AndUint64
var AndUintptr = real.AndUintptr
var OrInt32 = real.OrInt32
var OrInt64 = real.OrInt64
var OrUint32 = real.OrUint32
var OrUint64 = real.OrUint64
var OrUintptr = real.OrUintptr
