#!/usr/bin/env python3
# Writes "encoding HEX HEX-of-UTF-8" for everything that Python's codecs decode
# into one character, in the encodings that helium supports.
# Usage: python3 gen.py | (filter, see filter.go) | gzip -9n > ../../harness/cmd/vh/tables/tables.gz
import sys
single = {"cp437":"cp437","cp866":"cp866","koi8r":"koi8_r","koi8u":"koi8_u","macintosh":"mac_roman","macintoshcyrillic":"mac_cyrillic","windows874":"cp874"}
for i in (1,2,3,4,5,6,7,8,10,13,14,15,16): single["iso-8859-%d"%i]="iso8859_%d"%i
for i in range(1250,1259): single["windows%d"%i]="cp%d"%i
def one(enc, codec, b):
    try: s=b.decode(codec)
    except UnicodeDecodeError: return
    if len(s)==1: print(enc,b.hex(),s.encode().hex())
for enc,codec in sorted(single.items()):
    for i in range(256): one(enc,codec,bytes([i]))
for i in range(256): print("xuserdefined","%02x"%i,(chr(i) if i<128 else chr(0xF780+i-0x80)).encode().hex())
for enc,codec in (("euc-jp","euc_jp"),("shift_jis","cp932"),("big5","big5"),("euc-kr","euc_kr")):
    for i in range(256):
        one(enc,codec,bytes([i]))
        if i>=128:
            for j in range(0x21,256):
                one(enc,codec,bytes([i,j]))
                if enc=="euc-jp" and i==0x8f and j>=0xa1:
                    for k in range(0xa1,256): one(enc,codec,bytes([i,j,k]))
# these shift: only the two bytes are given
for enc,codec,pre,post in (("iso-2022-jp","iso2022_jp",b"\x1b$B",b"\x1b(B"),("hz-gb2312","hz",b"~{",b"~}")):
    for i in range(0x21,0x7f):
        for j in range(0x21,0x7f):
            try: s=(pre+bytes([i,j])+post).decode(codec)
            except UnicodeDecodeError: continue
            if len(s)==1: print(enc,bytes([i,j]).hex(),s.encode().hex())
