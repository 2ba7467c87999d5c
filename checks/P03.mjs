// A form's validity and changed flags are the aggregate of the fields it currently contains.
import { drivers, valuesOf } from '../lib/inputs.mjs';
import { json, typeInto } from '../lib/kit.mjs';

const BAD = 'bad';
const rule = (v) => (v === BAD ? 'rejected' : '');
const fails = (sc, v) => v === BAD || (!!sc.filled && v === '');

export default {
    id: 'P03',
    world: 'ui',
    method: 'every sequence, up to the depth, of mounting, unmounting, renaming, editing, clearing and validating the fields of a real mounted form; the oracle recomputes the aggregate from the fields present',
    assumptions: ['field ids are distinct at any one time'],

    scenarios(tier) {
        const deep = tier === 'thorough';
        const list = [
            { name: 'three fields coming and going', kind: 'dynamic', fields: 3, depth: deep ? 4 : 3 },
            { name: 'two fields coming and going', kind: 'dynamic', fields: 2, depth: deep ? 5 : 4 },
            { name: 'fields taking over each other\'s ids', kind: 'rename', depth: deep ? 5 : 4 },
            { name: 'field list without keys', kind: 'list', depth: deep ? 5 : 4 },
            { name: 'fields that must be filled, coming and going', kind: 'dynamic', fields: 2, filled: true, depth: deep ? 4 : 3 },
            { name: 'fields that must be filled, taking over ids', kind: 'rename', filled: true, depth: deep ? 4 : 3 },
        ];
        for (const comp of Object.keys(drivers)) {
            list.push({ name: 'form with ' + comp, kind: 'mixed', comp, depth: deep ? 4 : 3 });
        }
        return list;
    },

    start(env, sc) {
        const { h, reactive, ref } = env.vue;
        const lib = env.instance();
        const sys = { env, sc, errors: [], form: ref(null), returned: null, note: '' };
        const form = (children) => h(lib.VsForm, { ref: sys.form, onError: (ids) => sys.errors.push([...ids].sort()) }, { default: children });

        if (sc.kind === 'mixed') {
            const d = drivers[sc.comp];
            const s = reactive({ v: d.empty, on: true, text: '' });
            sys.d = d;
            sys.values = valuesOf(d);
            sys.s = s;
            sys.field = ref(null);
            sys.model = { main: { valid: true, changed: false }, other: { valid: true, changed: false } };
            const watchers = (name) => ({
                'onUpdate:valid': (v) => (sys.model[name].valid = v),
                'onUpdate:changed': (v) => (sys.model[name].changed = sc.comp === 'VsFileDrop' && name === 'main' ? !!v : v),
            });
            const render = () =>
                form(() => [
                    s.on
                        ? h(lib[sc.comp], {
                              ...d.props,
                              ...watchers('main'),
                              key: 'main',
                              ref: sys.field,
                              id: 'main',
                              required: true,
                              modelValue: s.v,
                              'onUpdate:modelValue': (v) => (s.v = v),
                              rules: [(v) => (json(v) === json(sys.values[1]) ? 'rejected' : '')],
                          })
                        : null,
                    h(lib.VsInput, { ...watchers('other'), key: 'other', id: 'other', modelValue: s.text, 'onUpdate:modelValue': (v) => (s.text = v), rules: [rule] }),
                ]);
            sys.app = env.mount({ render });
            return env.flush().then(() => sys);
        }

        const n = sc.fields || 3;
        const s = reactive({ fields: [] });
        sys.s = s;
        sys.refs = [];
        sys.model = [];
        for (let i = 0; i < n; i++) {
            s.fields.push({ on: i < 2, v: '', id: 'f' + i });
            sys.model.push({ changed: false });
            sys.refs.push(ref(null));
        }
        const one = (f, i, keyed) =>
            h(lib.VsInput, {
                ...(keyed ? { key: `k${i}-${f.key || 0}` } : {}),
                ref: sys.refs[i],
                id: f.id,
                class: 'w' + i,
                modelValue: f.v,
                'onUpdate:modelValue': (v) => (f.v = v),
                required: !!sc.filled,
                rules: [rule],
            });
        const render = () => form(() => s.fields.map((f, i) => (f.on ? one(f, i, sc.kind !== 'list') : null)).filter((x) => x));
        sys.app = env.mount({ render });
        return env.flush().then(() => sys);
    },

    enabled(sys) {
        const { sc, s } = sys;
        const out = [];
        if (sc.kind === 'mixed') {
            if (s.on) {
                sys.values.forEach((v, i) => {
                    if (json(v) !== json(s.v)) {
                        out.push('set:' + i);
                        if (sc.comp !== 'VsSelect' && sc.comp !== 'VsRadio' && sc.comp !== 'VsCheckboxSet') {
                            out.push('user:' + i);
                        }
                    }
                });
                out.push('clear');
            }
            out.push('mount', 'other', 'validate', 'clearForm');
            return out;
        }
        s.fields.forEach((f, i) => {
            if (sc.kind === 'dynamic') {
                out.push('toggle:' + i);
            }
            if (f.on) {
                out.push((f.v === BAD ? 'good:' : 'bad:') + i);
                if (i < 2) {
                    out.push('write+validate:' + i);
                }
                if (sc.kind === 'dynamic' && sc.fields === 2) {
                    out.push('replace:' + i);
                }
                if (f.v !== '') {
                    out.push('clear:' + i);
                }
            }
        });
        if (sc.kind === 'rename') {
            out.push('swap', 'rotate', 'rename', 'toggle:2');
        }
        if (sc.kind === 'list') {
            out.push('shift', 'push', 'reverse');
        }
        out.push('validate', 'clearForm');
        return out;
    },

    async step(sys, action) {
        const { env, sc, s } = sys;
        const [kind, arg] = action.split(':');
        sys.returned = null;
        sys.errors.length = 0;
        if (kind === 'validate') {
            let r;
            await env.act(() => sys.form.value.validate().then((x) => (r = x)));
            sys.returned = r;
            return;
        }
        if (kind === 'clearForm') {
            await env.act(() => sys.form.value.clear());
            if (sc.kind !== 'mixed') {
                s.fields.forEach((f, i) => {
                    if (f.on) {
                        sys.model[i].changed = false;
                        if (f.v !== '') {
                            sys.note = `form.clear() left ${f.id} at ${json(f.v)}`;
                        }
                    }
                });
            }
            return;
        }
        if (sc.kind === 'mixed') {
            if (kind === 'set') {
                await env.act(() => (s.v = sys.values[arg]));
            } else if (kind === 'user') {
                await env.act(() => sys.d.edit(sys.app.el, sys.values[arg], env));
            } else if (kind === 'clear') {
                await env.act(() => sys.field.value.clear());
            } else if (kind === 'mount') {
                if (s.on) {
                    sys.model.main = { valid: true, changed: false };
                    s.v = sys.d.empty;
                }
                await env.act(() => (s.on = !s.on));
            } else if (kind === 'other') {
                await env.act(() => (s.text = s.text === BAD ? 'ok' : BAD));
            }
            return;
        }
        const f = s.fields[arg];
        if (kind === 'write+validate') {
            let r;
            await env.act(() => {
                f.v = f.v === BAD ? 'ok' : BAD;
                sys.form.value.validate().then((x) => (r = x));
            });
            sys.returned = r;
            sys.model[arg].changed = true;
        } else if (kind === 'replace') {
            // another field with the same id takes its place in one update
            await env.act(() => (f.key = (f.key || 0) + 1));
            sys.model[arg].changed = false;
        } else if (kind === 'toggle') {
            await env.act(() => (f.on = !f.on));
            sys.model[arg].changed = false;
        } else if (kind === 'bad' || kind === 'good') {
            const v = kind === 'bad' ? BAD : 'ok';
            await env.act(() => typeInto(this.node(sys, +arg), v));
            sys.model[arg].changed = true;
        } else if (kind === 'clear') {
            await env.act(() => sys.refs[arg].value.clear());
            sys.model[arg].changed = false;
        } else if (kind === 'swap') {
            await env.act(() => ([s.fields[0].id, s.fields[1].id] = [s.fields[1].id, s.fields[0].id]));
        } else if (kind === 'rotate') {
            await env.act(() => {
                const ids = s.fields.map((x) => x.id);
                s.fields.forEach((x, i) => (x.id = ids[(i + 1) % ids.length]));
            });
        } else if (kind === 'rename') {
            await env.act(() => (s.fields[0].id = ['g', 'h', 'i', 'j'].find((id) => !s.fields.some((x) => x.id === id))));
        } else if (kind === 'shift' || kind === 'push' || kind === 'reverse') {
            // the mounted fields are reused in order: field i takes over the data of entry i
            const before = s.fields.filter((x) => x.on).map((x) => json(x.v));
            const next = s.fields.filter((x) => x.on).map((x) => ({ ...x }));
            if (kind === 'shift') {
                next.shift();
            } else if (kind === 'reverse') {
                next.reverse();
            } else if (next.length < 3) {
                next.push({ on: true, v: '', id: ['f0', 'f1', 'f2', 'f3'].find((id) => !next.some((x) => x.id === id)) });
            }
            await env.act(() => (s.fields = next));
            sys.model = next.map((x, i) => ({ changed: i < before.length ? sys.model[i].changed || before[i] !== json(x.v) : false }));
        }
    },

    node(sys, i) {
        const f = sys.s.fields[i];
        return document.getElementById(f.id).closest('input') || document.getElementById(f.id).querySelector('input');
    },

    verdict(sys) {
        if (sys.note) {
            return sys.note;
        }
        let invalid;
        let changed;
        if (sys.sc.kind === 'mixed') {
            const present = [...(sys.s.on ? [['main', sys.model.main]] : []), ['other', sys.model.other]];
            invalid = present.filter(([, m]) => !m.valid).map(([id]) => id);
            changed = present.some(([, m]) => m.changed);
            const failing = (sys.s.text === BAD ? ['other'] : []);
            const v = sys.s.v;
            const empty = json(v) === json(sys.d.empty);
            if (sys.s.on && (empty || json(v) === json(sys.values[1]))) {
                failing.push('main');
            }
            if (json(failing.sort()) !== json([...invalid].sort())) {
                return `fields report invalid ${json(invalid)}, their values make ${json(failing)} invalid (value ${json(v)})`;
            }
        } else {
            const present = sys.s.fields.map((f, i) => [f, sys.model[i]]).filter(([f]) => f.on);
            invalid = present.filter(([f]) => fails(sys.sc, f.v)).map(([f]) => f.id);
            changed = present.some(([, m]) => m.changed);
        }
        const form = sys.form.value;
        if (form.valid !== (invalid.length === 0)) {
            return `form.valid is ${form.valid}, the invalid fields present are ${json(invalid)}`;
        }
        if (form.changed !== changed) {
            return `form.changed is ${form.changed}, but ${changed ? 'a field present has changed' : 'no field present has changed'}`;
        }
        if (sys.returned !== null) {
            if (sys.returned !== (invalid.length === 0)) {
                return `form.validate() answered ${sys.returned}, the invalid fields present are ${json(invalid)}`;
            }
            const want = invalid.length ? [[...invalid].sort()] : [];
            if (json(sys.errors) !== json(want)) {
                return `validate() reported errors for ${json(sys.errors)}, the invalid fields present are ${json(invalid)}`;
            }
        }
        return null;
    },

    state(sys) {
        return json([sys.s, sys.model, sys.form.value.valid, sys.form.value.changed, sys.returned, sys.errors]);
    },
};
