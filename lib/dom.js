// A small document: runs the previews' scripts and user events; one job (JSON) per line of stdin.
'use strict';
const vm = require('vm');

function words(s) { return (s || '').split(/\s+/).filter(Boolean); }

class Style {
  setProperty(n, v) { this[n.replace(/-(\w)/g, (_, c) => c.toUpperCase())] = v; }
  removeProperty(n) { delete this[n]; }
  getPropertyValue(n) { return this[n] || ''; }
  set cssText(t) { for (const p of t.split(';')) { const i = p.indexOf(':'); if (i > 0) this.setProperty(p.slice(0, i).trim(), p.slice(i + 1).trim()); } }
}

class Text { constructor(t) { this.text = t; this.nodeType = 3; this.parentNode = null; } get textContent() { return this.text; } }

class Element {
  constructor(tag) {
    this.tagName = tag.toUpperCase(); this.nodeType = 1; this.attrs = {}; this.childNodes = []; this.parentNode = null;
    this.style = new Style(); this.listeners = {};
    const e = this;
    this.classList = {
      add(...c) { e.className = [...new Set([...words(e.className), ...c])].join(' '); },
      remove(...c) { e.className = words(e.className).filter(x => !c.includes(x)).join(' '); },
      contains(c) { return words(e.className).includes(c); },
      toggle(c, f) { const on = f === undefined ? !this.contains(c) : !!f; if (on) this.add(c); else this.remove(c); return on; },
    };
    this.dataset = new Proxy({}, {
      get(_, k) { return e.attrs['data-' + String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase())]; },
      set(_, k, v) { e.attrs['data-' + String(k).replace(/[A-Z]/g, c => '-' + c.toLowerCase())] = String(v); return true; },
    });
  }
  get className() { return this.attrs['class'] || ''; }
  set className(v) { this.attrs['class'] = v; }
  get id() { return this.attrs.id || ''; }
  set id(v) { this.attrs.id = v; }
  get disabled() { return 'disabled' in this.attrs; }
  set disabled(v) { if (v) this.attrs.disabled = ''; else delete this.attrs.disabled; }
  get hidden() { return 'hidden' in this.attrs; }
  set hidden(v) { if (v) this.attrs.hidden = ''; else delete this.attrs.hidden; }
  getAttribute(n) { return n in this.attrs ? this.attrs[n] : null; }
  hasAttribute(n) { return n in this.attrs; }
  setAttribute(n, v) { this.attrs[n] = String(v); if (n === 'style') { this.style = new Style(); this.style.cssText = String(v); } }
  removeAttribute(n) { delete this.attrs[n]; if (n === 'style') this.style = new Style(); }
  toggleAttribute(n, f) { if (f === undefined) f = !(n in this.attrs); if (f) this.attrs[n] = ''; else delete this.attrs[n]; return f; }
  get children() { return this.childNodes.filter(c => c.nodeType === 1); }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
  get parentElement() { return this.parentNode; }
  sibling(d) { if (!this.parentNode) return null; const c = this.parentNode.children; return c[c.indexOf(this) + d] || null; }
  get nextElementSibling() { return this.sibling(1); }
  get previousElementSibling() { return this.sibling(-1); }
  appendChild(c) { c.parentNode = this; this.childNodes.push(c); return c; }
  get textContent() { return this.childNodes.map(c => c.textContent).join(''); }
  set textContent(t) { this.childNodes = []; if (String(t) !== '') this.appendChild(new Text(String(t))); }
  get innerText() { return this.textContent; }
  set innerText(t) { this.textContent = t; }
  get innerHTML() { return this.textContent; }
  set innerHTML(t) { if (/[<&]/.test(t)) throw new Error('innerHTML with markup'); this.textContent = t; }
  *walk() { for (const c of this.childNodes) if (c.nodeType === 1) { yield c; yield* c.walk(); } }
  querySelectorAll(sel) { const r = []; for (const e of this.walk()) if (e.matches(sel)) r.push(e); r.item = i => r[i] || null; return r; }
  querySelector(sel) { for (const e of this.walk()) if (e.matches(sel)) return e; return null; }
  getElementsByClassName(c) { return this.querySelectorAll(words(c).map(x => '.' + x).join('')); }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
  contains(o) { for (; o; o = o.parentNode) if (o === this) return true; return false; }
  closest(sel) { for (let e = this; e && e.nodeType === 1; e = e.parentNode) if (e.matches(sel)) return e; return null; }
  matches(sel) { return sel.split(',').some(s => matches(this, s.trim())); }
  addEventListener(t, f) { (this.listeners[t] = this.listeners[t] || []).push(f); }
  removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(g => g !== f); }
  dispatchEvent(ev) {
    ev.target = ev.target || this;
    for (let e = this; e; e = e.parentNode) {
      ev.currentTarget = e;
      for (const f of (e.listeners[ev.type] || []).slice()) (f.handleEvent || f).call(f.handleEvent ? f : e, ev);
      if (typeof e['on' + ev.type] === 'function') e['on' + ev.type].call(e, ev);
      if (ev.stopped || !ev.bubbles) break;
    }
    return true;
  }
  click() { if (!this.disabled) this.dispatchEvent(event('click')); }
}

function event(type) { return { type, bubbles: true, preventDefault() {}, stopPropagation() { this.stopped = true; }, stopImmediatePropagation() { this.stopped = true; } }; }

function compound(e, s) {
  if (e.nodeType !== 1) return false;
  const re = /([.#]?[\w-]+|\*|\[[^\]]*\]|:[\w-]+(?:\([^)]*\))?)/gy;
  let m, n = 0;
  re.lastIndex = 0;
  while (re.lastIndex < s.length) {
    const at = re.lastIndex;
    m = re.exec(s);
    if (!m || m.index !== at) throw new Error('selector ' + s);
    const p = m[1];
    if (p === '*') ;
    else if (p[0] === '.') { if (!words(e.className).includes(p.slice(1))) return false; }
    else if (p[0] === '#') { if (e.id !== p.slice(1)) return false; }
    else if (p[0] === '[') {
      const q = /^\[\s*([\w-]+)\s*(?:([~^$*|]?=)\s*["']?([^"'\]]*)["']?)?\s*\]$/.exec(p);
      if (!q) throw new Error('selector ' + s);
      const v = e.getAttribute(q[1]);
      if (v === null) return false;
      if (q[2] === '=' && v !== q[3]) return false;
      if (q[2] === '~=' && !words(v).includes(q[3])) return false;
      if (q[2] === '^=' && !v.startsWith(q[3])) return false;
      if (q[2] === '$=' && !v.endsWith(q[3])) return false;
      if (q[2] === '*=' && !v.includes(q[3])) return false;
      if (q[2] === '|=') throw new Error('selector ' + s);
    } else if (p[0] === ':') {
      const c = e.parentNode ? e.parentNode.children : [];
      const q = /^:([\w-]+)(?:\(([^)]*)\))?$/.exec(p);
      if (q[1] === 'first-child') { if (c[0] !== e) return false; }
      else if (q[1] === 'last-child') { if (c[c.length - 1] !== e) return false; }
      else if (q[1] === 'nth-child' && /^\d+$/.test(q[2])) { if (c[+q[2] - 1] !== e) return false; }
      else if (q[1] === 'scope') { if (e.parentNode && e.parentNode.nodeType === 1) return false; }
      else if (q[1] === 'not') { if (compound(e, q[2])) return false; }
      else throw new Error('selector ' + s);
    } else if (e.tagName.toLowerCase() !== p.toLowerCase()) return false;
  }
  return true;
}

function matches(e, sel) {
  const parts = sel.replace(/\s*([>+~])\s*(?![^\[]*\])/g, ' $1 ').trim().split(/\s+/);
  function from(e, i) {
    if (!compound(e, parts[i])) return false;
    if (i === 0) return true;
    const op = '>+~'.includes(parts[i - 1]) ? parts[i - 1] : ' ';
    const j = op === ' ' ? i - 1 : i - 2;
    if (op === '>') return !!e.parentNode && e.parentNode.nodeType === 1 && from(e.parentNode, j);
    if (op === '+') { const p = e.previousElementSibling; return !!p && from(p, j); }
    if (op === '~') { for (let p = e.previousElementSibling; p; p = p.previousElementSibling) if (from(p, j)) return true; return false; }
    for (let p = e.parentNode; p && p.nodeType === 1; p = p.parentNode) if (from(p, j)) return true;
    return false;
  }
  return from(e, parts.length - 1);
}

function build(x) {
  if (typeof x === 'string') return new Text(x);
  const e = new Element(x.t);
  for (const [n, v] of x.a) e.setAttribute(n, v === null ? '' : v);
  for (const c of x.c) e.appendChild(build(c));
  return e;
}

function isHidden(e) {
  for (; e && e.nodeType === 1; e = e.parentNode) if (e.hidden || e.style.display === 'none' || e.style.visibility === 'hidden') return true;
  return false;
}

function plain(e) {          // text outside of pictures, scripts and buttons
  return e.childNodes.map(c => c.nodeType === 3 ? c.text : ['SVG', 'SCRIPT', 'STYLE', 'BUTTON', 'IMG'].includes(c.tagName) ? ' ' : plain(c)).join('');
}

function outer(e, r) {
  for (const c of e.children) if (c.tagName === 'SVG' || c.tagName === 'IMG') r.push(c); else outer(c, r);
  return r;
}

function see(cell) {
  const pics = outer(cell, []), bs = cell.querySelectorAll('button'), m = /\d+/.exec(plain(cell));
  return { marks: pics.map(p => p.attrs['data-frag']), shown: pics.map(p => !isHidden(p)), number: m ? +m[0] : 0, controls: bs.length > 0,
           next: bs.length ? bs[bs.length - 1].disabled : false, prev: bs.length ? bs[0].disabled : false, buttons: bs.length };
}

function run(job) {
  const html = new Element('html'), body = html.appendChild(new Element('body'));
  html.nodeType = 9;
  const doc = html;
  doc.body = body; doc.documentElement = body; doc.readyState = 'complete';
  doc.getElementById = i => { for (const e of doc.walk()) if (e.id === i) return e; return null; };
  doc.createElement = t => new Element(t);
  const context = vm.createContext({ document: doc, console, Event: function (t, o) { return Object.assign(event(t), o || {}); }, setTimeout: f => f(), requestAnimationFrame: f => f(0) });
  context.window = context; context.self = context;
  const cells = [], out = [];
  function fill(cell, tree) {
    cell.childNodes = [];
    for (const c of tree) cell.appendChild(build(c));
    for (const s of cell.querySelectorAll('script')) {
      doc.currentScript = s;
      vm.runInContext(s.textContent, context, { timeout: 5000 });
      doc.currentScript = null;
    }
  }
  for (const op of job.ops) {
    let err = '';
    try {
      if (op.op === 'preview') { const c = new Element('div'); body.appendChild(c); cells.push(c); fill(c, op.html); }
      else if (op.op === 'rerun') fill(cells[op.v - 1], op.html);
      else if (op.op === 'click' || op.op === 'fire') {
        const bs = cells[op.v - 1].querySelectorAll('button'), b = op.d > 0 ? bs[bs.length - 1] : bs[0];
        if (b) { if (op.op === 'click') b.click(); else b.dispatchEvent(event('click')); }
      }
    } catch (e) { err = String(e); }
    out.push({ seen: cells.map(see), err });
  }
  return out;
}

require('readline').createInterface({ input: process.stdin }).on('line', l => process.stdout.write(JSON.stringify(run(JSON.parse(l))) + '\n'));
