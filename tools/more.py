"""Writes data/more.json from the output of tools/pairs, tools/corpus and
tools/seeds (arguments) and the composed forms of words of the lists. Not run by any check."""
import json, sys, unicodedata
p = json.load(open(sys.argv[1]))
d = json.load(open(sys.argv[2]))
s = json.load(open(sys.argv[3]))
extra = [v for k in sorted(d) if k.startswith(("addrcktail", "addrsha", "shatail", "wifcktail", "cwifcktail")) for v in d[k][:2]]
lists = json.load(open("data/wordlists.json"))
words = []
for name, ws in sorted(lists.items()):
    n = 0
    for i, w in enumerate(ws):
        t = bytes.fromhex(w).decode()
        c = unicodedata.normalize("NFC", t)
        if c != t:
            n += 1
            if n % 40 == 1:
                words.append({"list": name, "i": i, "c": c.encode().hex()})
json.dump({"pairs": [v for k in sorted(p["pairs"]) for v in p["pairs"][k]], "smally": p["smally"], "nfc": words,
           "extra": extra, "seeds": [e for k in sorted(s) for e in s[k]]},
          open("data/more.json", "w"), indent=0)
print(len(words))
