'use strict';
// C20: bundles the page from /repo/src and drives it. run.cjs --tier T --seed N --budget S --out FILE [--section S --case K]
const path = require('path'), fs = require('fs'), os = require('os'), crypto = require('crypto');
const NODE = '/opt/veriftools/node/node_modules';
const esbuild = require(NODE + '/esbuild');
const React = require('./mini-react.cjs');
const { World, box, PageFile, PageBlob, makeDom, model, refuses, lib } = require('./page.cjs');

const arg = (n, d) => {
  const k = process.argv.indexOf(n);
  return k < 0 ? d : process.argv[k + 1];
};
const thorough = arg('--tier', 'quick') === 'thorough';
const seed = +arg('--seed', 1), budget = +arg('--budget', 60);
const only = arg('--section') ? [arg('--section'), +arg('--case', 0)] : null;
const REPO = '/repo';
process.on('unhandledRejection', () => (box.world ? box.world.rejections = (box.world.rejections || 0) + 1 : 0));

class Rng {
  constructor(s) {
    this.s = BigInt.asUintN(64, BigInt(s) * 0x9e3779b97f4a7c15n + 0x1234567n);
  }
  next() {
    this.s = BigInt.asUintN(64, this.s + 0x9e3779b97f4a7c15n);
    let z = this.s;
    z = BigInt.asUintN(64, (z ^ (z >> 30n)) * 0xbf58476d1ce4e5b9n);
    z = BigInt.asUintN(64, (z ^ (z >> 27n)) * 0x94d049bb133111ebn);
    return Number((z ^ (z >> 31n)) >> 11n);
  }
  below(n) {
    return this.next() % n;
  }
  pick(a) {
    return a[this.below(a.length)];
  }
  chance(p) {
    return this.next() / 2 ** 53 < p;
  }
  bytes(n) {
    return Buffer.from(Array.from({ length: n }, () => this.below(256)));
  }
}
const hash = s => parseInt(crypto.createHash('sha256').update(s).digest('hex').slice(0, 12), 16);

async function bundle() {
  const work = fs.mkdtempSync(path.join(os.tmpdir(), 'siafront-'));
  const out = path.join(work, 'page.cjs');
  const exists = f => ['.ts', '.tsx', '.js', '.jsx'].some(e => fs.existsSync(f + e));
  const parts = [`export { default as App } from '${REPO}/src/App';`];
  if (exists(`${REPO}/src/Content/utils`)) parts.push(`export * as utils from '${REPO}/src/Content/utils';`);
  try {
    await esbuild.build({
      stdin: { contents: parts.join('\n'), resolveDir: REPO + '/src', loader: 'ts' },
      bundle: true, platform: 'node', format: 'cjs', outfile: out, jsx: 'automatic', logLevel: 'error', target: 'node20',
      plugins: [{
        name: 'stand-ins',
        setup(b) {
          b.onResolve({ filter: /^react($|\/)/ }, () => ({ path: path.join(__dirname, 'mini-react.cjs'), external: true }));
          b.onResolve({ filter: /^sia-watermarking-lib$/ }, () => ({ path: 'lib', namespace: 'standin' }));
          b.onLoad({ filter: /.*/, namespace: 'standin' }, () => ({ contents: 'module.exports = globalThis.__sia_lib;', loader: 'js' }));
          b.onResolve({ filter: /\.(jpe?g|png|svg|gif|bmp)$/ }, a => ({ path: a.path, namespace: 'asset' }));
          b.onLoad({ filter: /.*/, namespace: 'asset' }, a => ({ contents: `export default ${JSON.stringify('/static/' + path.basename(a.path))};`, loader: 'js' }));
          b.onResolve({ filter: /\.css$/ }, a => ({ path: a.path, namespace: 'style' }));
          b.onLoad({ filter: /.*/, namespace: 'style' }, () => ({ contents: '', loader: 'js' }));
        },
      }],
    });
    const code = fs.readFileSync(out, 'utf8');
    return () => {
      // a page of its own
      const m = { exports: {} };
      globalThis.__sia_lib = lib;
      new Function('module', 'exports', 'require', code)(m, m.exports, require);
      return m.exports;
    };
  } finally {
    fs.rmSync(work, { recursive: true, force: true });
  }
}

const state = { evaluations: 0, keys: new Set(), samples: [], counts: {}, undecided: {}, violations: [], short: [] };
const count = (n, k = 1) => (state.counts[n] = (state.counts[n] || 0) + k);
const T0 = Date.now();
const tick = () => new Promise(r => setImmediate(r));
async function settle(w) {
  let idle = 0, steps = 0;
  while (idle < 3) {
    await tick();
    if (w.step()) {
      idle = 0;
      if (++steps > 20000) throw new Error('the page never settles');
    } else idle++;
  }
}
class Violation extends Error {}
const demand = (ok, what) => {
  if (!ok) throw new Violation(typeof what === 'function' ? what() : what);
};

async function drive(section, n, share, f) {
  if (only && only[0] !== section) return;
  const t = Date.now();
  for (let k = only ? only[1] : 0; k < (only ? only[1] + 1 : n); k++) {
    if ((Date.now() - t) / 1000 > budget * share || state.violations.length > 4) {
      count(section + '.cut', 1);
      break;
    }
    const rng = new Rng(hash(`${seed}|${section}|${k}`) % 2 ** 48);
    const input = {};
    state.evaluations++;
    try {
      const key = await f(rng, input, k);
      if (key === null) {
        state.undecided[section] = (state.undecided[section] || 0) + 1;
        continue;
      }
      count(section + '.held');
      state.keys.add(section + key);
      if (state.samples.filter(s => s.section === section).length < 3) state.samples.push({ section, case: input });
    } catch (e) {
      if (!(e instanceof Violation)) throw e;
      state.violations.push({ property: 'C20', section, case: k, seed, tier: thorough ? 'thorough' : 'quick', what: e.message, detail: input });
    }
  }
}

const TYPES = ['image/png', 'image/jpeg', 'image/gif', 'image/bmp', 'image/tiff', 'image/x-ms-bmp', 'image/vnd.microsoft.icon', '', 'image/svg+xml', 'application/octet-stream'];

// where decoders and readers that work in pieces have their borders
const BORDERS = [1 << 10, 3 << 10, 1 << 12, 1 << 13, 3 << 12, 1 << 14, 3 << 13, 1 << 15, 3 << 14, 1 << 16, 3 << 15, 125000, 1 << 17, 3 << 16, 1 << 18, 500000, 3 << 18, 1 << 20, 3 << 19, 1 << 21, 5e6];
function large(rng) {
  const n = rng.pick(BORDERS) + rng.below(4) - 1 - rng.below(2) * rng.below(5000);
  const b = Buffer.alloc(Math.max(1, n));
  let s = 1 + rng.below(2 ** 31);
  for (let k = 0; k < b.length; k++) {
    s ^= s << 13;
    s ^= s >>> 17;
    s ^= s << 5;
    b[k] = s >>> 11;
  }
  count('files over a kilobyte');
  if (b.length > 1 << 20) count('files over a megabyte');
  return b;
}
function file(rng, good) {
  let b = rng.chance(0.06) ? large(rng) : rng.bytes(1 + rng.below(rng.chance(0.1) ? 5000 : 300));
  if (rng.chance(0.2)) b = Buffer.alloc(b.length, rng.pick([0, 255, 62, 63]));
  b[0] = good ? rng.below(0xee) : 0xee;
  return new PageFile([b], rng.pick(['a.png', 'bild ä.jpg', 'x', 'data:image,png;base64,.bmp']), { type: rng.pick(TYPES), wait: rng.below(60) });
}

/** the picture the page shows now, as one consistent thing; null while loading */
function shown(root) {
  demand(root.errors.length === 0, () => `the page failed: ${root.errors[0]}`);
  const c = root.all('canvas');
  if (c.length === 0) return null;
  demand(c.length === 2, () => `${c.length} canvases instead of source and watermarked`);
  return { canvases: c.map(x => x.dom), text: root.text() };
}
function isShowing(s, m) {
  const [a, b] = s.canvases;
  const like = (c, d) => c.width === m.w && c.height === m.h && Buffer.from(c.pixels.buffer).equals(Buffer.from(d.buffer));
  if (!like(a, m.source)) return `the source canvas (${a.width}x${a.height}) does not show the source (${m.w}x${m.h})`;
  if (!like(b, m.watermarked)) return `the watermarked canvas (${b.width}x${b.height}) does not show the watermarked picture (${m.w}x${m.h})`;
  if (!s.text.includes(m.format.toUpperCase())) return `the format ${m.format.toUpperCase()} is not shown`;
  if (!s.text.includes(`${m.w}x${m.h}`)) return `the size ${m.w}x${m.h} is not shown`;
  return null;
}

async function main() {
  const page = await bundle();

  await drive('page', thorough ? 3000 : 300, 0.7, async (rng, input) => {
    const w = (box.world = new World(rng));
    // screens differ in what they make of a pixel
    globalThis.devicePixelRatio = rng.pick([1, 1, 1.25, 1.5, 2, 3]);
    const first = file(rng, true);
    w.urls.set('/static/peppers.jpg', new PageBlob([first.bytes], { type: 'image/jpeg' }));
    const root = new React.Root(makeDom);
    root.render(React.createElement(page().App));
    const plan = [];
    input.steps = plan;
    // while loading nothing may be shown that is not the first picture
    let guard = 0;
    while (w.queue.length || guard < 6) {
      await tick();
      if (!w.step()) guard++;
      const s = shown(root);
      if (s && w.calls.length === 0) demand(false, 'canvases before any picture was processed');
    }
    await settle(w);
    demand(w.initCalls >= 1, 'the library was never initialized');
    let s = shown(root);
    demand(s, 'the page never showed its first picture');
    let now = model(first.bytes, 500, 1);
    let bad = isShowing(s, now);
    demand(!bad, () => `first picture: ${bad}`);
    const known = [first.bytes];
    const picked = [];
    const select = f => {
      if (f) known.push(f.bytes);
      const inputs = root.all('input').filter(i => i.props.type === 'file');
      demand(inputs.length === 1, `${inputs.length} file selectors`);
      const h = inputs[0].props.onChange || inputs[0].props.onInput;
      demand(h, 'the file selector does nothing');
      const target = { files: f ? [f] : [], value: f ? 'C:\\fakepath\\' + f.name : '' };
      h({ target, currentTarget: target, preventDefault() {}, persist() {} });
    };
    for (let k = 1 + rng.below(5); k > 0; k--) {
      const several = rng.chance(0.35) ? 2 + rng.below(2) : 1;
      const files = [];
      const candidates = [now];
      for (let n = 0; n < several; n++) {
        let f = file(rng, rng.chance(0.85));
        if (rng.chance(0.15)) f.broken = true;
        if (rng.chance(0.1)) f = new PageFile([first.bytes], 'again.png', { type: 'image/png', wait: 3 });
        if (rng.chance(0.15)) {
          // nothing but a few bytes tells it from a file selected before
          const old = rng.pick(picked.length ? picked : [f]);
          const b = Buffer.from(old.bytes);
          for (let m = 1 + rng.below(3); m > 0; m--) b[rng.below(b.length)] ^= 1 + rng.below(255);
          b[0] = old.bytes[0];
          f = new PageFile([b], old.name, { type: old.type, wait: rng.below(60) });
          if (!b.equals(old.bytes)) count('files alike but for some bytes');
        }
        files.push(f);
        picked.push(f);
        plan.push({ bytes: f.bytes.length, type: f.type, wait: f.wait, refused: refuses(f.bytes), unreadable: !!f.broken, with: several });
        select(f);
        for (let m = rng.below(3); m > 0; m--) {
          await tick();
          w.step();
        }
        if (rng.chance(0.12)) {
          // the dialog is opened again and closed without a choice
          plan.push('cancelled');
          select(null);
          count('cancelled selections');
        }
        for (let m = rng.below(3); m > 0; m--) {
          await tick();
          w.step();
        }
      }
      await settle(w);
      const usable = f => !refuses(f.bytes) && !f.broken;
      const last = files[files.length - 1];
      for (const f of files) if (usable(f)) candidates.push(model(f.bytes, 500, 1));
      s = shown(root);
      demand(s, 'the page lost its picture');
      if (usable(last)) {
        now = model(last.bytes, 500, 1);
        bad = isShowing(s, now);
        demand(!bad, () => `after selecting ${several} file(s): ${bad}`);
        count('pictures shown');
        if (Math.max(now.w, now.h) > 2000) count('pictures larger than a screen');
        if (several > 1) count('overlapping selections');
      } else {
        // refused or unreadable: what is shown is still one picture, whole
        const m = candidates.find(m => !isShowing(s, m));
        demand(m, 'after a file that could not be marked the page shows no picture as a whole');
        now = m;
        count('refused or unreadable files');
      }
    }
    for (const c of w.calls) {
      demand(c.typed && known.some(b => b.equals(c.bytes)), 'the library was given bytes that are no selected file');
      demand(c.depth === 500 && c.step === 1, `the library was called with depth ${c.depth}, step ${c.step}`);
      demand(c.ready, 'the library was called before it was initialized');
      count('library calls');
    }
    return JSON.stringify(plan) + first.bytes.toString('hex').slice(0, 40);
  });

  await drive('helpers', thorough ? 30000 : 1500, 0.3, async (rng, input) => {
    const w = (box.world = new World(rng));
    w.ready = true;
    const u = page.cached || (page.cached = page().utils || {});
    const f = file(rng, true);
    const [depth, step] = [rng.pick([500, 1, 0.125, 33.3]), rng.pick([1, 0.5, 7.25])];
    Object.assign(input, { bytes: f.bytes.length, type: f.type, depth, step });
    const b64 = f.bytes.toString('base64');
    const wait = async p => {
      let r, e;
      let done = false;
      p.then(x => ((r = x), (done = true)), x => ((e = x), (done = true)));
      await settle(w);
      demand(done, 'a helper never finishes');
      if (e) demand(false, `a helper fails: ${e}`);
      return r;
    };
    const eq = (a, b) => a instanceof Uint8Array && Buffer.from(a).equals(b);
    if (u.base64ToUInt8Array) {
      demand(eq(u.base64ToUInt8Array(b64), f.bytes), 'base64 text is decoded to other bytes');
      demand(eq(u.base64ToUInt8Array(`data:${f.type || 'application/octet-stream'};base64,${b64}`), f.bytes), 'a data URL is decoded to other bytes');
      count('texts decoded', 2);
    }
    if (u.fileToBase64) {
      const t = await wait(u.fileToBase64(f));
      demand(Buffer.from(t, 'base64').equals(f.bytes) && t === b64, 'a file is turned into other text');
      if (rng.chance(0.2)) {
        f.broken = true;
        let outcome = 'pending';
        u.fileToBase64(f).then(() => (outcome = 'resolved'), () => (outcome = 'rejected'));
        await settle(w);
        demand(outcome === 'rejected', `an unreadable file is ${outcome}`);
        f.broken = false;
        count('unreadable files reported');
      }
      count('files read');
    }
    if (u.toDataURL) {
      w.urls.set('/x', f);
      const t = await wait(u.toDataURL('/x'));
      demand(/^data:/.test(t) && t.endsWith(',' + b64), 'a loaded picture is turned into another data URL');
      count('pictures loaded');
    }
    if (u.sourceBase64ToWatermarkingProcess) {
      const p = u.sourceBase64ToWatermarkingProcess(b64, depth, step);
      const m = model(f.bytes, depth, step);
      const c = w.calls[w.calls.length - 1];
      demand(c.bytes.equals(f.bytes) && c.depth === depth && c.step === step, 'the library is called with other arguments');
      demand(p.sourceFormat === m.format, 'another format is reported');
      for (const n of ['source', 'watermarked'])
        demand(p[n].width === m.w && p[n].height === m.h && eq(p[n].data, Buffer.from(m[n])), `the ${n} picture was altered`);
      count('processes converted');
    }
    return b64 + f.type;
  });

  const need = (n, min) => {
    if (!only && !state.violations.length && (state.counts[n] || 0) < min) state.short.push(`${n}: observed ${state.counts[n] || 0}, wanted ${min}`);
  };
  need('page.held', 50);
  need('pictures shown', 50);
  need('pictures larger than a screen', 5);
  need('overlapping selections', 20);
  need('cancelled selections', 10);
  need('files alike but for some bytes', 20);
  need('files over a kilobyte', 20);
  need('files over a megabyte', 5);
  const result = {
    evidence: {
      property: 'C20', tier: thorough ? 'thorough' : 'quick', seed, level: 'exploration',
      coverage: {
        evaluations: state.evaluations, distinct_nontrivial: state.keys.size,
        rule: 'page: one run of the bundled page from loading through one to five selections (single or overlapping, readable, unreadable or refused files, random delays) with canvases, texts and library calls compared; helpers: one file through every exported helper. Distinct by bytes, types and order.',
        samples: state.samples.slice(0, 8), observed: state.counts, undecided: state.undecided,
      },
      assumptions: ['stand-ins for React, the DOM and the wasm library have the documented behaviour', 'time is virtual: every order of events the delays allow may occur'],
      wall_s: (Date.now() - T0) / 1000, violations: state.violations.length,
    },
    violations: state.violations, short: state.short,
  };
  fs.writeFileSync(arg('--out', '/dev/stdout'), JSON.stringify(result, null, 1));
}
main().catch(e => {
  console.error(e);
  process.exit(3);
});
