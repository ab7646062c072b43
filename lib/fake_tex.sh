#!/bin/sh
# Stand-in of pdflatex and pdf2svg: the "document" is the TeX source itself, its picture a rectangle labelled by its digest,
# or the one that a comment %SVG:<base64> of the source holds.
what=$1; shift
if [ "$what" = pdflatex ]; then
  for a in "$@"; do case "$a" in -*) ;; *) src=$a ;; esac; done
  d=$(md5sum < "$src" | cut -d' ' -f1)
  n=0
  if [ -n "$FAKE_TEX_SRC" ]; then base64 -w0 "$src" >> "$FAKE_TEX_SRC"; echo >> "$FAKE_TEX_SRC"; fi
  if [ -n "$FAKE_TEX_LOG" ]; then
    n=$(grep -c '"c": "tex"' "$FAKE_TEX_LOG" 2>/dev/null); n=$((n + 1))
    kind=""
    [ "$n" = "$FAKE_TEX_NTH" ] && kind=$FAKE_TEX_KIND
    printf '{"c": "tex", "d": "%s", "bad": %s}\n' "$d" "$([ -n "$kind" ] && echo true || echo false)" >> "$FAKE_TEX_LOG"
    if [ "$kind" = fail ]; then echo "! Undefined control sequence." > content.log; exit 1; fi
    if [ "$kind" = kill ]; then kill -9 $PPID; exit 1; fi
  fi
  case "$FAKE_TEX_NOW" in
    fail) echo "! Undefined control sequence." > content.log; exit 1 ;;
    failpdf) echo "! Error" > content.log; cp "$src" content.pdf; exit 1 ;;
    crash) kill -9 $$ ;;
    nopdf) echo "no output" > content.log; exit 0 ;;
  esac
  echo "This is a stand-in" > content.log
  if grep -q 'badmacro' "$src"; then echo "! Undefined control sequence badmacro." > content.log; exit 1; fi
  cp "$src" content.pdf
else
  [ -f "$1" ] || { echo "no such file" >&2; exit 1; }
  case "$FAKE_TEX_NOW" in
    svgfail) echo "cannot convert" >&2; exit 1 ;;
    svgpart) printf '<svg xmlns="http://www.w3.org/2000/svg" width="1pt"' > "$2"; echo "cannot write" >&2; exit 1 ;;
    svgcut) printf '<svg xmlns="http://www.w3.org/2000/svg" width="1pt"' > "$2"; exit 0 ;;
    svgnone) exit 0 ;;
  esac
  if grep -q '^%SVG:' "$1"; then sed -n 's/^%SVG://p' "$1" | base64 -d > "$2"; exit 0; fi
  d=$(md5sum < "$1" | cut -d' ' -f1)
  n=$(wc -c < "$1")
  if [ -n "$FAKE_TEX_LOG" ] && [ "$FAKE_TEX_KIND" = svgfail ] && [ "$(grep -c '"c": "tex"' "$FAKE_TEX_LOG")" = "$FAKE_TEX_NTH" ]; then
    echo "cannot convert" >&2; exit 1
  fi
  printf '<?xml version="1.0" encoding="UTF-8"?>\n<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" width="%spt" height="12pt" viewBox="0 0 %s 12" version="1.1"><defs><g id="glyph0-1"><path d="M 0 0 L 1 1"/></g></defs><g id="surface1"><use xlink:href="#glyph0-1" x="1" y="2"/><rect class="d%s" width="5" height="5"/></g></svg>' "$((n % 40 + 5))" "$((n % 40 + 5))" "$d" > "$2"
fi
