'use strict';
// Stand-ins for what the page uses of the browser; time is virtual and ordered by the workload.
class World {
  constructor(rng) {
    this.rng = rng;
    this.now = 0;
    this.queue = [];
    this.seq = 0;
    this.urls = new Map();
    this.calls = [];
    this.initCalls = 0;
    this.ready = false;
    this.delay = () => this.rng.below(50);
  }
  later(f, delay = this.delay()) {
    this.queue.push({ t: this.now + delay, n: this.seq++, f });
  }
  /** runs the earliest event; false if none */
  step() {
    if (!this.queue.length) return false;
    this.queue.sort((a, b) => a.t - b.t || a.n - b.n);
    const e = this.queue.shift();
    this.now = Math.max(this.now, e.t);
    e.f();
    return true;
  }
}
const box = { world: null };
const later = (f, d) => box.world.later(f, d);

class PageBlob {
  constructor(parts, { type = '' } = {}) {
    this.bytes = Buffer.concat((Array.isArray(parts) ? parts : [parts]).map(p => Buffer.from(p.bytes || p)));
    this.type = type;
    this.size = this.bytes.length;
  }
  arrayBuffer() {
    return new Promise((ok, no) =>
      later(() => (this.broken ? no(new Error('unreadable')) : ok(this.bytes.buffer.slice(this.bytes.byteOffset, this.bytes.byteOffset + this.bytes.length))), this.wait));
  }
}
class PageFile extends PageBlob {
  constructor(parts, name, options = {}) {
    super(parts, options);
    this.name = name;
    this.lastModified = options.lastModified || 1700000000000;
    this.wait = options.wait;
    this.broken = options.broken;
  }
}
class Target {
  addEventListener(n, f) {
    ((this.listeners = this.listeners || {})[n] = this.listeners[n] || []).push(f);
  }
  removeEventListener(n, f) {
    if (this.listeners && this.listeners[n]) this.listeners[n] = this.listeners[n].filter(x => x !== f);
  }
  fire(n) {
    const e = { type: n, target: this, currentTarget: this };
    if (typeof this['on' + n] === 'function') this['on' + n](e);
    for (const f of (this.listeners && this.listeners[n]) || []) f.call(this, e);
  }
}
class PageReader extends Target {
  constructor() {
    super();
    this.result = null;
    this.error = null;
    this.readyState = 0;
  }
  read(blob, make) {
    if (!(blob instanceof PageBlob)) throw new TypeError("parameter 1 is not of type 'Blob'");
    this.readyState = 1;
    later(() => {
      this.readyState = 2;
      if (blob.broken) {
        this.error = new Error('unreadable');
        this.fire('error');
      } else {
        this.result = make(blob);
        this.fire('load');
      }
      this.fire('loadend');
    }, blob.wait);
  }
  readAsDataURL(blob) {
    this.read(blob, b => `data:${b.type || 'application/octet-stream'};base64,${b.bytes.toString('base64')}`);
  }
  readAsArrayBuffer(blob) {
    this.read(blob, b => new Uint8Array(b.bytes).buffer);
  }
  readAsBinaryString(blob) {
    this.read(blob, b => b.bytes.toString('latin1'));
  }
}
class PageRequest extends Target {
  constructor() {
    super();
    this.responseType = '';
    this.status = 0;
  }
  open(method, url) {
    this.url = url;
  }
  setRequestHeader() {}
  send() {
    later(() => {
      const b = box.world.urls.get(this.url);
      if (!b) {
        this.fire('error');
      } else {
        this.status = 200;
        this.readyState = 4;
        this.response = this.responseType === 'blob' ? b : this.responseType === 'arraybuffer' ? new Uint8Array(b.bytes).buffer : b.bytes.toString('latin1');
        this.fire('load');
      }
      this.fire('loadend');
    });
  }
}
const pageFetch = url =>
  new Promise((ok, no) =>
    later(() => {
      const b = box.world.urls.get(String(url));
      if (!b) return no(new TypeError('failed to fetch'));
      ok({ ok: true, status: 200, blob: async () => b, arrayBuffer: async () => new Uint8Array(b.bytes).buffer });
    }));

class PageImageData {
  constructor(a, w, h) {
    if (typeof a === 'number') {
      [this.width, this.height] = [a, w];
      this.data = new Uint8ClampedArray(4 * a * w);
    } else {
      if (!(a instanceof Uint8ClampedArray)) throw new TypeError('not a Uint8ClampedArray');
      this.width = w;
      this.height = h === undefined ? a.length / 4 / w : h;
      if (a.length !== 4 * this.width * this.height) throw new Error('InvalidStateError');
      this.data = a;
    }
    if (!(this.width > 0 && this.height > 0)) throw new Error('IndexSizeError');
  }
}
class PageCanvas {
  constructor() {
    this._w = 300;
    this._h = 150;
    this.reset();
    this.puts = 0;
  }
  reset() {
    this.pixels = new Uint8ClampedArray(4 * this._w * this._h);
  }
  get width() {
    return this._w;
  }
  set width(v) {
    this._w = v >>> 0;
    this.reset();
  }
  get height() {
    return this._h;
  }
  set height(v) {
    this._h = v >>> 0;
    this.reset();
  }
  attribute(k, v) {
    if (k === 'width' || k === 'height') this[k] = v;
  }
  getContext(kind) {
    if (kind !== '2d') return null;
    const c = this;
    return {
      canvas: c,
      createImageData: (w, h) => (typeof w === 'object' ? new PageImageData(w.width, w.height) : new PageImageData(w, h)),
      putImageData(img, dx, dy) {
        if (!(img instanceof PageImageData)) throw new TypeError('not ImageData');
        c.puts++;
        for (let y = 0; y < img.height; y++)
          for (let x = 0; x < img.width; x++) {
            const [X, Y] = [x + dx, y + dy];
            if (X < 0 || Y < 0 || X >= c._w || Y >= c._h) continue;
            for (let k = 0; k < 4; k++) c.pixels[4 * (Y * c._w + X) + k] = img.data[4 * (y * img.width + x) + k];
          }
      },
      getImageData(x0, y0, w, h) {
        const o = new PageImageData(w, h);
        for (let y = 0; y < h; y++) for (let x = 0; x < w; x++) for (let k = 0; k < 4; k++) o.data[4 * (y * w + x) + k] = c.pixels[4 * ((y + y0) * c._w + x + x0) + k];
        return o;
      },
      clearRect(x0, y0, w, h) {
        for (let y = y0; y < Math.min(c._h, y0 + h); y++) for (let x = x0; x < Math.min(c._w, x0 + w); x++) c.pixels.fill(0, 4 * (y * c._w + x), 4 * (y * c._w + x) + 4);
      },
    };
  }
}

const makeDom = tag => (tag === 'canvas' ? new PageCanvas() : { tag });

/** what the library would make of these bytes: a picture that depends on every byte, the depth and the step */
function model(bytes, depth, step) {
  let h = 0x811c9dc5;
  for (const b of bytes) h = Math.imul(h ^ b, 0x01000193) >>> 0;
  h = (h ^ Math.imul(bytes.length, 2654435761)) >>> 0;
  // few sizes, so that pictures of equal size follow each other
  let w = [1, 3, 7, 16][h % 4], g = [1, 2, 7][(h >>> 8) % 3];
  // and pictures of real sizes
  if ((h >>> 12) % 16 === 0) [w, g] = [[255, 256, 300, 1025, 1600][(h >>> 16) % 5], [150, 200, 257, 64][(h >>> 20) % 4]];
  // and larger ones than any screen, if only in one direction
  if ((h >>> 5) % 40 === 0) [w, g] = [[5001, 2], [2, 5001], [4097, 5], [3, 2049], [2049, 40]][(h >>> 14) % 5];
  const fill = salt => {
    const d = new Uint8Array(4 * w * g);
    let s = (h ^ salt) >>> 0 || 1;
    for (let k = 0; k < d.length; k++) {
      s ^= s << 13;
      s >>>= 0;
      s ^= s >>> 17;
      s ^= s << 5;
      s >>>= 0;
      d[k] = s >>> 24;
    }
    return d;
  };
  return {
    format: ['Png', 'Jpeg', 'Bmp', 'Gif', 'Tiff'][h % 5],
    w, h: g,
    source: fill(0x5bd1e995),
    watermarked: fill(Math.imul(0x1b873593, Math.round(depth * 1000)) ^ Math.round(step * 1000)),
  };
}
const refuses = bytes => bytes.length === 0 || bytes[0] === 0xee;

class ImageModel {
  constructor(w, h, d) {
    Object.assign(this, { w, h, d });
  }
  live() {
    if (this.freed) throw new Error('null pointer passed to rust');
  }
  free() {
    this.freed = true;
  }
  get_width() {
    this.live();
    return this.w;
  }
  get_height() {
    this.live();
    return this.h;
  }
  get_data() {
    this.live();
    return this.d;
  }
}
class WatermarkingProcess {
  constructor(m) {
    this.m = m;
  }
  free() {
    this.freed = true;
  }
  live() {
    if (this.freed) throw new Error('null pointer passed to rust');
  }
  get_source_format() {
    this.live();
    return this.m.format;
  }
  get_source() {
    this.live();
    return new ImageModel(this.m.w, this.m.h, this.m.source.slice());
  }
  get_watermarked() {
    this.live();
    return new ImageModel(this.m.w, this.m.h, this.m.watermarked.slice());
  }
}
function get_watermarking_process(bytes, depth, step) {
  const w = box.world;
  const ok = bytes instanceof Uint8Array;
  w.calls.push({ bytes: ok ? Buffer.from(bytes) : null, depth, step, ready: w.ready, typed: ok });
  if (!w.ready) throw new Error('library called before it was initialized');
  if (!ok) throw new TypeError('not a Uint8Array');
  if (refuses(bytes)) throw new Error('unreachable executed');
  return new WatermarkingProcess(model(bytes, depth, step));
}
const init = () => {
  const w = box.world;
  w.initCalls++;
  return new Promise(ok =>
    w.later(() => {
      w.ready = true;
      ok({});
    }));
};
const lib = { __esModule: true, default: init, init, get_watermarking_process, ImageModel, WatermarkingProcess };

Object.assign(globalThis, {
  window: globalThis, document: { createElement: makeDom }, devicePixelRatio: 1,
  XMLHttpRequest: PageRequest, FileReader: PageReader, File: PageFile, Blob: PageBlob, fetch: pageFetch, ImageData: PageImageData,
});
module.exports = { World, box, PageFile, PageBlob, makeDom, model, refuses, lib };
