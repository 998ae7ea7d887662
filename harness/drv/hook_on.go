//go:build verif

package main

import qrcode "github.com/yeqown/go-qrcode/v2"

func setHook(f func(string, int)) { qrcode.VerifHook = f }
