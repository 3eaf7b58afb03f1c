package main

import (
	"github.com/theMPatel/streamvbyte-simdgo/pkg/decode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/encode"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/shared"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/reader"
	"github.com/theMPatel/streamvbyte-simdgo/pkg/stream/writer"
)

func init() {
	add("writer.WriteAllFast", "encstream", false, 0, writer.WriteAllFast)
	add("writer.WriteAllDeltaFast", "encstream", true, 0, writer.WriteAllDeltaFast)
	add("reader.ReadAllFast", "decstream", false, 0, reader.ReadAllFast)
	add("reader.ReadAllDeltaFast", "decstream", true, 0, reader.ReadAllDeltaFast)
	add("encode.Put8uint32Fast", "enc8", false, 16, encode.Put8uint32Fast)
	add("encode.Put8uint32DeltaFast", "enc8", true, 16, encode.Put8uint32DeltaFast)
	add("decode.Get8uint32Fast", "dec8", false, 16, decode.Get8uint32Fast)
	add("decode.Get8uint32DeltaFast", "dec8", true, 16, decode.Get8uint32DeltaFast)
	add("encode.Put8uint32FastAsm", "enc8", false, 16, func(in []uint32, out []byte) uint16 {
		return encode.Put8uint32FastAsm(in, out, shared.EncodeShuffleTable, shared.PerControlLenTable)
	})
	add("encode.Put8uint32DeltaFastAsm", "enc8", true, 16, func(in []uint32, out []byte, prev uint32) uint16 {
		return encode.Put8uint32DeltaFastAsm(in, out, prev, shared.EncodeShuffleTable, shared.PerControlLenTable)
	})
	add("decode.Get8uint32FastAsm", "dec8", false, 16, func(in []byte, out []uint32, ctrl uint16) {
		decode.Get8uint32FastAsm(in, out, ctrl, shared.DecodeShuffleTable, shared.PerControlLenTable)
	})
	add("decode.Get8uint32DeltaFastAsm", "dec8", true, 16, func(in []byte, out []uint32, ctrl uint16, prev uint32) {
		decode.Get8uint32DeltaFastAsm(in, out, ctrl, prev, shared.DecodeShuffleTable, shared.PerControlLenTable)
	})
}
