// Runs the page's script (app.mjs) and service worker (sw.js) with recording stand-ins for the
// browser: node page.mjs WEBDIR SCRATCH SEED
import fs from "node:fs";
import path from "node:path";
import { pathToFileURL } from "node:url";

const [, , web, scratch, seedText] = process.argv;
let state = BigInt(seedText) + 1n;
const M = (1n << 64n) - 1n;
function u64() {
  state = (state + 0x9e3779b97f4a7c15n) & M;
  let x = state;
  x = ((x ^ (x >> 30n)) * 0xbf58476d1ce4e5b9n) & M;
  x = ((x ^ (x >> 27n)) * 0x94d049bb133111ebn) & M;
  return x ^ (x >> 31n);
}
const below = (n) => Number(u64() % BigInt(n));
const range = (a, b) => a + below(b - a + 1);
const rnd = () => Number(u64() >> 11n) / 2 ** 53;
let evals = 0;
const say = (s) => process.stdout.write(s + "\n");
function check(ok, sig, detail) {
  evals++;
  if (!ok) say(`FAIL ${sig} | ${typeof detail === "function" ? detail() : detail}`);
  return ok;
}
console.log = () => {};

// the script with a recording stand-in for the compiled module next to it
fs.copyFileSync(path.join(web, "app.mjs"), path.join(scratch, "app.mjs"));
fs.mkdirSync(path.join(scratch, "tests", "pkg"), { recursive: true });
const pkg = `
export const Colormap = { Fire: 10, Legacy: 11, Gray: 12, Viridis: 13, Plasma: 14, Inferno: 15, Rainbow: 16 };
export function color_from_magnitude_u8(...a) { return globalThis.__color(...a); }
export function stft_magnitudes(...a) { return globalThis.__stft(...a); }
export default async function init() {}
`;
fs.writeFileSync(path.join(scratch, "tests", "pkg", "web_spectrogram.js"), pkg);
fs.writeFileSync(path.join(scratch, "package.json"), '{"type":"module"}');
const app = await import(pathToFileURL(path.join(scratch, "app.mjs")).href);

const hash = (...v) => {
  let h = 7;
  for (const x of v) for (const b of new Uint8Array(new Float64Array([x]).buffer)) h = (Math.imul(h, 31) + b) >>> 0;
  return [h & 255, (h >>> 8) & 255, (h >>> 16) & 255];
};
globalThis.ImageData ??= class {
  constructor(a, b, c) {
    if (typeof a === "number") [this.width, this.height, this.data] = [a, b, new Uint8ClampedArray(a * b * 4)];
    else [this.data, this.width, this.height] = [a, b, c ?? a.length / 4 / b];
  }
};
// A canvas keeps what was painted until its size is set; every painting leaves a picture of the whole.
function fakeCanvas(extra = {}) {
  const puts = [];
  let [width, height, pixels] = [0, 0, new Uint8ClampedArray(0)];
  const clear = () => (pixels = new Uint8ClampedArray(width * height * 4));
  const ctx = {
    get canvas() {
      return canvas;
    },
    createImageData: (w, h) => (typeof w === "object" ? new ImageData(w.width, w.height) : new ImageData(w, h)),
    getImageData(x, y, w, h) {
      const img = new ImageData(w, h);
      for (let j = 0; j < h; j++) for (let i = 0; i < w; i++) for (let c = 0; c < 4; c++) img.data[4 * (j * w + i) + c] = pixels[4 * ((y + j) * width + x + i) + c];
      return img;
    },
    putImageData(img, x, y) {
      for (let j = 0; j < img.height; j++)
        for (let i = 0; i < img.width; i++) {
          if (x + i < 0 || y + j < 0 || x + i >= width || y + j >= height) continue;
          for (let c = 0; c < 4; c++) pixels[4 * ((y + j) * width + x + i) + c] = img.data[4 * (j * img.width + i) + c];
        }
      puts.push(0);
    },
  };
  const canvas = {
    get width() {
      return width;
    },
    set width(v) {
      width = v;
      clear();
    },
    get height() {
      return height;
    },
    set height(v) {
      height = v;
      clear();
    },
    pixels: () => pixels,
    getContext: (t) => (t === "2d" ? ctx : (extra[t] ?? null)),
  };
  return { canvas, puts };
}
function result(w, h) {
  const mags = Float32Array.from({ length: w * h }, () => (below(9) === 0 ? 0 : rnd() * 10 ** range(-6, 3)));
  return { mags: below(2) ? mags : Array.from(mags), width: w, height: h, max_mag: mags.reduce((a, b) => Math.max(a, b), 1e-12) };
}
function judgePainting(what, puts, canvas, res, colormap) {
  const { width: w, height: h, mags, max_mag } = res;
  if (!check(puts.length > 0, `${what}: nothing painted`, `${w}x${h}`)) return;
  if (!check(canvas.width === w && canvas.height === h, `${what}: canvas size`, `${w}x${h} ${canvas.width}x${canvas.height}`)) return;
  const data = canvas.pixels();
  for (let x = 0; x < w; x++)
    for (let y = 0; y < h; y++) {
      const want = hash(mags[x * h + y], max_mag, -80, colormap);
      const i = 4 * (y * w + x);
      const got = [...data.slice(i, i + 4)];
      if (!check(got[0] === want[0] && got[1] === want[1] && got[2] === want[2] && got[3] === 255, `${what}: wrong pixel`, () => `${w}x${h} frame ${x} bin ${y}: got ${got} want ${want}`)) return;
    }
  say(`SIG ${what} ${w}x${h}`);
}
const colour = (mag, max, floor, map) => (below(2) ? Uint8Array.from(hash(mag, max, floor, map)) : hash(mag, max, floor, map));

// painting on the 2-D canvas, directly and where only WebGPU is offered
for (let k = 0; k < 25; k++) {
  const [w, h] = k % 5 === 4 ? [range(1, 700), range(1, 300)] : [range(1, 40), range(1, 40)];
  const res = result(w, h);
  const map = range(0, 6);
  const gpu = below(3) === 0;
  const { canvas, puts } = fakeCanvas(gpu ? { webgpu: below(2) ? {} : null } : {});
  const nav = Object.getOwnPropertyDescriptor(globalThis, "navigator");
  if (gpu) Object.defineProperty(globalThis, "navigator", { value: { gpu: {} }, configurable: true });
  try {
    app.drawSpectrogram(canvas, res, colour, map);
    judgePainting("drawSpectrogram", puts, canvas, res, map);
    if (below(3) === 0) {
      // the same canvas used again for another picture
      const r2 = result(range(1, 30), range(1, 30));
      app.drawSpectrogram(canvas, r2, colour, map + 1);
      judgePainting("drawSpectrogram again", puts, canvas, r2, map + 1);
    }
  } catch (e) {
    check(false, "drawSpectrogram: exception", String(e));
  } finally {
    if (gpu && nav) Object.defineProperty(globalThis, "navigator", nav);
  }
  say(gpu ? "COVER painting with WebGPU offered" : "COVER painting on the 2-D canvas");
}

// decibels
let last = -Infinity;
for (const e of Array.from({ length: 200 }, () => rnd() * 16 - 13).sort((a, b) => a - b)) {
  const max = 2.5;
  const mag = max * 10 ** e;
  const d = app.magnitudeToDb(mag, max);
  const want = Math.max(20 * e, -240);
  check(Math.abs(d - want) < 1e-6 && d >= last - 1e-9, "magnitudeToDb: wrong value", () => `${mag} of ${max}: ${d} want ${want}`);
  last = d;
}
check(app.magnitudeToDb(0, 1) === -240, "magnitudeToDb: silence", () => String(app.magnitudeToDb(0, 1)));

// choosing files
{
  const { canvas, puts } = fakeCanvas();
  const on = {};
  const input = { addEventListener: (e, f) => (on[e] ??= []).push(f), files: [] };
  globalThis.document = {
    getElementById: (id) => (id === "file" ? input : id === "spec" ? canvas : null),
    querySelector: (q) => globalThis.document.getElementById(q.replace(/^.*#/, "")),
  };
  let decoded = null;
  globalThis.AudioContext = class {
    async close() {}
    async decodeAudioData(b) {
      decoded = b;
      const n = b.byteLength;
      const s = [Float32Array.from({ length: n }, (_, i) => Math.sin(i + n)), new Float32Array(n)];
      return { numberOfChannels: 2, length: n, sampleRate: 44100, getChannelData: (k) => s[k] };
    }
  };
  const asked = [];
  let res = null;
  globalThis.__stft = (s, w, h) => {
    asked.push([s, w, h]);
    return res;
  };
  globalThis.__color = (...a) => hash(...a);
  await app.initApp();
  check((on.change ?? []).length === 1, "initApp: file input not watched once", () => JSON.stringify(Object.keys(on)));
  const choose = async (files) => {
    input.files = files;
    for (const f of on.change ?? []) await f.call(input, { target: input, currentTarget: input });
  };
  for (let k = 0; k < 6; k++) {
    if (below(3) === 0) {
      const before = asked.length + puts.length;
      await choose([]);
      check(asked.length + puts.length === before, "initApp: an empty choice was analysed", "");
    }
    const n = range(1, 4000);
    res = result(range(1, 50), range(1, 50));
    const bytes = new ArrayBuffer(n);
    const a0 = asked.length;
    await choose([{ name: "x.wav", arrayBuffer: async () => bytes }]);
    if (!check(asked.length === a0 + 1 && decoded === bytes, "initApp: chosen file not analysed once", `${asked.length - a0}`)) continue;
    const [s, w, h] = asked[a0];
    check(w === 1024 && h === 512, "initApp: wrong window or hop", `${w} ${h}`);
    let same = s.length === n;
    for (let i = 0; same && i < n; i++) same = s[i] === Math.fround(Math.sin(i + n));
    check(same, "initApp: not the file's samples", `${s.length} of ${n}`);
    judgePainting("initApp", puts, canvas, res, 16);
  }
}

// Buffer where the browser has none
{
  const original = globalThis.Buffer;
  try {
    globalThis.Buffer = undefined;
    app.ensureBuffer();
    const n = range(0, 50);
    const v = Array.from({ length: n }, () => below(256));
    for (const src of [v, Uint8Array.from(v).buffer]) {
      const b = globalThis.Buffer.from(src);
      check(b instanceof Uint8Array && b.length === n && v.every((x, i) => b[i] === x), "ensureBuffer: wrong bytes", () => `${v} -> ${b}`);
    }
  } catch (e) {
    check(false, "ensureBuffer: exception", String(e));
  } finally {
    globalThis.Buffer = original;
  }
  app.ensureBuffer();
  check(globalThis.Buffer === original, "ensureBuffer: replaced an existing Buffer", "");
}

// service worker: the shell is stored on installation, stored answers win, others come from the network
{
  const on = {};
  const stored = new Map();
  let waited = null;
  const caches = {
    open: async (name) => ({
      addAll: async (l) => {
        await new Promise((r) => setTimeout(r, 1));
        for (const u of l) stored.set(u, `cache ${u}`);
      },
      add: async (u) => void stored.set(u, `cache ${u}`),
      put: async () => {},
      match: async (r) => stored.get(r),
    }),
    match: async (r) => stored.get(r),
    has: async () => stored.size > 0,
    keys: async () => [],
    delete: async () => false,
  };
  const asked = [];
  const net = async (r) => (asked.push(r), `net ${r}`);
  const self = { addEventListener: (e, f) => (on[e] = f) };
  new Function("self", "caches", "fetch", fs.readFileSync(path.join(web, "sw.js"), "utf8"))(self, caches, net);
  if (check(on.install && on.fetch, "service worker: no handlers", Object.keys(on).join())) {
    on.install({ waitUntil: (p) => (waited = p) });
    await waited;
    for (const u of ["/", "/index.html", "/app.mjs", "/manifest.json"]) check(stored.has(u), "service worker: part of the shell not stored", u);
    for (let k = 0; k < 30; k++) {
      const known = below(2) === 0;
      const u = known ? [...stored.keys()][below(stored.size)] : `/other${below(9)}`;
      const a0 = asked.length;
      let p = null;
      on.fetch({ request: u, respondWith: (x) => (p = x) });
      const r = await p;
      check(r === (known ? `cache ${u}` : `net ${u}`), "service worker: wrong answer", `${u}: ${r}`);
      check(asked.length - a0 === (known ? 0 : 1), "service worker: network use", `${u}: ${asked.length - a0}`);
    }
  }
}
say(`EVALS ${evals}`);
say("DONE");
