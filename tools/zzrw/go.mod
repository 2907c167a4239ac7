module zzrw

go 1.24
