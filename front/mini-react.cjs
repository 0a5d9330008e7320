'use strict';
// The part of React's observable behaviour that the page uses: state, effects, refs, suspense, keyed instances.
const Fragment = Symbol('Fragment');
const Suspense = Symbol('Suspense');
const StrictMode = Symbol('StrictMode');
const LAZY = Symbol('lazy'), MEMO = Symbol('memo'), FWD = Symbol('forwardRef');

const element = (type, props, key) => ({ $el: true, type, props: props || {}, key });
const createElement = (type, props, ...children) => {
  const { key, ...rest } = props || {};
  if (children.length === 1) rest.children = children[0];
  else if (children.length > 1) rest.children = children;
  return element(type, rest, key);
};
const jsx = (type, props, key) => element(type, props, key);

let current = null; // instance being rendered
const cell = make => {
  const i = current;
  if (!i) throw new Error('hook outside a component');
  const k = i.at++;
  if (i.cells.length <= k) i.cells.push(make());
  return i.cells[k];
};
const same = (a, b) => a && b && a.length === b.length && a.every((x, k) => Object.is(x, b[k]));

const useReducer = (reducer, initial, init) => {
  const root = current.root;
  const inst = current;
  const c = cell(() => {
    const c = { value: init ? init(initial) : initial };
    c.dispatch = action => {
      if (inst.dead) return;
      const next = c.reducer(c.value, action);
      if (!Object.is(next, c.value)) {
        c.value = next;
        root.schedule();
      }
    };
    return c;
  });
  c.reducer = reducer;
  return [c.value, c.dispatch];
};
const useState = initial =>
  useReducer((s, a) => (typeof a === 'function' ? a(s) : a), undefined, () => (typeof initial === 'function' ? initial() : initial));
const useRef = initial => cell(() => ({ current: initial }));
const useMemo = (f, deps) => {
  const c = cell(() => ({}));
  if (!same(c.deps, deps)) {
    c.value = f();
    c.deps = deps;
  }
  return c.value;
};
const useCallback = (f, deps) => useMemo(() => f, deps);
const useEffect = (f, deps) => {
  const c = cell(() => ({ effect: true }));
  if (!deps || !c.ran || !same(c.deps, deps)) {
    current.root.effects.push({ c, f, inst: current });
    c.next = deps;
  }
};
const createContext = d => {
  const ctx = { value: d };
  ctx.Provider = ({ value, children }) => ((ctx.value = value), children);
  return ctx;
};
const useContext = c => c.value;
const useId = () => cell(() => ({ id: ':r' + Math.floor(performance.now() * 1e6) + ':' })).id;

const lazy = load => ({ $t: LAZY, load, state: null });
const memo = type => ({ $t: MEMO, type });
const forwardRef = render => ({ $t: FWD, render });

class Root {
  constructor(makeDom) {
    this.makeDom = makeDom;
    this.instances = new Map();
    this.hosts = new Map();
    this.effects = [];
    this.tree = [];
    this.renders = 0;
    this.errors = [];
  }
  render(el) {
    this.el = el;
    this.schedule();
  }
  schedule() {
    if (this.pending) return;
    this.pending = true;
    queueMicrotask(() => {
      this.pending = false;
      this.flush();
    });
  }
  flush() {
    this.renders++;
    this.effects = [];
    this.refs = [];
    const seen = new Set();
    try {
      this.tree = this.walk(this.el, '', seen);
    } catch (e) {
      if (e && typeof e.then === 'function') e = new Error('suspended outside a boundary');
      this.errors.push(e); // React unmounts the whole page
      this.tree = [];
      seen.clear();
    }
    for (const [path, i] of this.instances)
      if (!seen.has(path)) {
        i.dead = true;
        for (const c of i.cells) if (c.effect && c.cleanup) c.cleanup();
        this.instances.delete(path);
      }
    for (const [path, h] of this.hosts)
      if (!seen.has(path)) {
        if (h.ref) this.setRef(h.ref, null);
        this.hosts.delete(path);
      }
    for (const [ref, dom] of this.refs) this.setRef(ref, dom);
    const todo = this.effects;
    for (const { c, f, inst } of todo) {
      if (inst.dead) continue;
      if (c.cleanup) c.cleanup();
      c.ran = true;
      c.deps = c.next;
      const r = f();
      c.cleanup = typeof r === 'function' ? r : null;
    }
  }
  setRef(ref, dom) {
    if (typeof ref === 'function') ref(dom);
    else if (ref) ref.current = dom;
  }
  walk(n, path, seen) {
    if (n === null || n === undefined || typeof n === 'boolean') return [];
    if (typeof n === 'string' || typeof n === 'number') return [String(n)];
    if (Array.isArray(n)) return n.flatMap((x, k) => this.walk(x, `${path}/${x && x.key !== undefined && x.key !== null ? '$' + x.key : k}`, seen));
    if (!n.$el) throw new Error('not an element');
    let { type, props } = n;
    if (type && type.$t === MEMO) type = type.type;
    if (type === Fragment || type === StrictMode) return this.walk(props.children, path + '/f', seen);
    if (type === Suspense) {
      const attempt = new Set();
      const effects = this.effects.length;
      try {
        const r = this.walk(props.children, path + '/s', attempt);
        attempt.forEach(x => seen.add(x));
        return r;
      } catch (e) {
        if (!e || typeof e.then !== 'function') throw e;
        this.effects.length = effects;
        e.then(() => this.schedule(), () => this.schedule());
        return this.walk(props.fallback, path + '/b', seen);
      }
    }
    if (type && type.$t === LAZY) {
      if (!type.state) {
        type.state = { promise: null };
        type.state.promise = type.load().then(
          m => (type.state.value = m.default),
          e => (type.state.error = e),
        );
      }
      if (type.state.error) throw type.state.error;
      if (!type.state.value) throw type.state.promise;
      return this.walk(element(type.state.value, props, n.key), path + '/l', seen);
    }
    if (typeof type === 'function' || (type && type.$t === FWD)) {
      const p = `${path}/${type.name || 'fn'}`;
      let i = this.instances.get(p);
      if (!i || i.type !== type) {
        if (i) {
          i.dead = true;
          for (const c of i.cells) if (c.effect && c.cleanup) c.cleanup();
        }
        i = { type, cells: [], root: this };
        this.instances.set(p, i);
      }
      seen.add(p);
      i.at = 0;
      const before = current;
      current = i;
      let out;
      try {
        out = type.$t === FWD ? type.render(props, props.ref) : type(props);
      } finally {
        current = before;
      }
      return this.walk(out, p, seen);
    }
    // host element
    const p = `${path}/${type}`;
    seen.add(p);
    let h = this.hosts.get(p);
    if (!h) {
      h = { tag: type, dom: this.makeDom(type) };
      this.hosts.set(p, h);
    }
    const { children, ref, ...attrs } = props;
    h.before = h.props || {};
    h.props = attrs;
    for (const k of Object.keys(attrs)) if (!Object.is(h.before[k], attrs[k]) && typeof attrs[k] !== 'function' && h.dom.attribute) h.dom.attribute(k, attrs[k]);
    if (ref) {
      h.ref = ref;
      this.refs.push([ref, h.dom]);
    }
    h.children = this.walk(children, p, seen);
    return [h];
  }
  all(tag, nodes = this.tree) {
    return nodes.flatMap(n => (typeof n === 'string' ? [] : [...(n.tag === tag ? [n] : []), ...this.all(tag, n.children)]));
  }
  text(nodes = this.tree) {
    return nodes.map(n => (typeof n === 'string' ? n : this.text(n.children))).join('');
  }
}

const React = {
  Fragment, Suspense, StrictMode, createElement, jsx, jsxs: jsx, jsxDEV: jsx, useState, useReducer, useRef, useMemo, useCallback,
  useEffect, useLayoutEffect: useEffect, createContext, useContext, useId, lazy, memo, forwardRef, Root, startTransition: f => f(),
  useTransition: () => [false, f => f()], useDeferredValue: x => x,
};
React.default = React;
module.exports = React;
