// Runs the scripts of notebook displays on a stand-in for a page.
// Input: {panels: [[{script, panels: n} | {click: i}]], web: [...]}
"use strict";
const vm = require("vm");
const input = JSON.parse(require("fs").readFileSync(0, "utf8"));

class ClassList {
  constructor(names) { this.set = new Set(names); }
  toggle(n) {
    if (this.set.has(n)) { this.set.delete(n); return false; }
    this.set.add(n); return true;
  }
  add(n) { this.set.add(n); }
  remove(n) { this.set.delete(n); }
  contains(n) { return this.set.has(n); }
}
class El {
  constructor(names) {
    this.classList = new ClassList(names);
    this.style = { display: "" };
    this.dataset = {};
    this.attributes = {};
    this.listeners = [];
    this.nextElementSibling = null;
    this.onclick = null;
  }
  addEventListener(t, f) {
    // the same function is added only once
    if (t === "click" && !this.listeners.includes(f)) this.listeners.push(f);
  }
  removeEventListener(t, f) {
    this.listeners = this.listeners.filter((g) => g !== f);
  }
  getAttribute(k) { return k in this.attributes ? this.attributes[k] : null; }
  setAttribute(k, v) { this.attributes[k] = String(v); }
  hasAttribute(k) { return k in this.attributes; }
  click() {
    const e = { type: "click", target: this, currentTarget: this,
      preventDefault() {}, stopPropagation() {} };
    for (const f of [...this.listeners]) f.call(this, e);
    if (this.onclick) this.onclick.call(this, e);
  }
}

function panels(ops) {
  const els = [], seen = [];
  const document = {
    getElementsByClassName: (n) => els.filter((e) => e.classList.contains(n)),
    querySelectorAll: (s) => els.filter((e) => e.classList.contains(
      s.replace(/^[a-z]*\./, ""))),
  };
  const ctx = { document, console };
  ctx.window = ctx;
  vm.createContext(ctx);
  for (const o of ops) {
    if ("click" in o) {
      els.filter((e) => e.classList.contains("collapsible"))[o.click].click();
    } else {
      for (let k = 0; k < o.panels; k++) {
        const b = new El(["collapsible"]), c = new El(["content"]);
        b.nextElementSibling = c;
        els.push(b, c);
      }
      vm.runInContext(o.script, ctx);
    }
    seen.push(els.filter((e) => e.classList.contains("collapsible")).map(
      (e) => {
        const open = (e.nextElementSibling.style.display || "none") !== "none";
        return open === e.classList.contains("active") ? open : "mixed";
      }));
  }
  return seen;
}

function web(cases) {
  const played = [];
  class AudioContext {
    constructor() { this.destination = {}; }
    createBuffer(n, length, sampleRate) {
      const x = Array.from({ length: n }, () => new Float32Array(length));
      return { rate: sampleRate, x,
        copyToChannel(d, c) { x[c].set(d); },
        getChannelData(c) { return x[c]; } };
    }
    createBufferSource() {
      const ctx = this;
      return { buffer: null, to: null,
        connect(d) { this.to = d; },
        start() {
          if (this.to === ctx.destination && this.buffer)
            played.push({ rate: this.buffer.rate,
              x: this.buffer.x.map((c) => Array.from(c)) });
        } };
    }
  }
  const ctx = { AudioContext, Float32Array, console };
  ctx.window = ctx;
  vm.createContext(ctx);
  const out = [];
  for (const c of cases) {
    played.length = 0;
    vm.runInContext(c.script, ctx);
    for (let k = 0; k < c.times; k++) vm.runInContext(c.onclick, ctx);
    out.push(played.slice());
  }
  return out;
}

process.stdout.write(JSON.stringify({
  panels: input.panels.map((o) => {
    try { return panels(o); } catch (e) { return String(e); }
  }),
  web: input.web.map((o) => {
    try { return web(o); } catch (e) { return String(e); }
  }),
}));
