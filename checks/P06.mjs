// Locked inputs: while an input or its form is disabled or read-only, nothing the user does alters its value.
import { drop, file, optionsOf } from '../lib/inputs.mjs';
import { all, json, key, text, typeInto } from '../lib/kit.mjs';

const press = (el) => el && el.click && el.click(); // a native click: does nothing on a natively disabled control
const svgSafe = (el) => el?.closest('button') || el;
const set = ['x', 'y', 'z'];

// gestures: everything a user can do to the control, in terms of the page
function variants() {
    const typing = (sel, vals) => vals.map((v) => ['type ' + json(v), (el) => typeInto(el.querySelector(sel), v)]);
    const clearBtn = ['clear button', (el) => press(el.querySelector('.vs-clear-button'))];
    const native = ['click', (el) => press(el.querySelector('input'))];
    const space = (sel) => ['press Space', (el) => key(el.querySelector(sel), 'Space')];
    const enter = (sel) => ['press Enter', (el) => key(el.querySelector(sel), 'Enter')];
    const nth = (i) => ['click ' + i, (el) => press(all(el, 'input')[i])];
    return [
        { name: 'text field', comp: 'VsInput', init: 'i', other: 'o', gestures: [...typing('input', ['a', '']), clearBtn] },
        { name: 'number field', comp: 'VsInput', props: { type: 'number' }, init: 1, other: 5, gestures: [...typing('input', ['7', '']), clearBtn] },
        { name: 'text area', comp: 'VsTextarea', init: 'i', other: 'o', gestures: typing('textarea', ['a', '']) },
        { name: 'date picker', comp: 'VsDatePicker', init: '2024-01-01', other: '2024-02-02', gestures: [...typing('input', ['2024-03-03', '']), clearBtn] },
        { name: 'checkbox', comp: 'VsCheckbox', init: true, other: false, gestures: [native, ['click box', (el) => press(el.querySelector('.vs-checkbox-wrap') || el.querySelector('.vs-checkbox'))], space('input'), ['click label', (el) => press(el.querySelector('label'))]], props: { checkLabel: 'L' } },
        { name: 'checkbox in a list', comp: 'VsCheckbox', props: { multiple: true, trueValue: 'x' }, init: ['x'], other: ['w'], gestures: [native, space('input')] },
        { name: 'switch', comp: 'VsSwitch', init: false, other: true, gestures: [native, space('input'), enter('input'), ['click body', (el) => press(el.querySelector('.vs-switch-button') || el.querySelector('.vs-switch'))]] },
        { name: 'radio', comp: 'VsRadio', props: { radioValue: 'r', name: 'n', radioLabel: 'L' }, init: null, other: 'q', gestures: [native, space('input'), ['click label', (el) => press(el.querySelector('label'))]], dead: (v) => v === 'r' },
        { name: 'radio set', comp: 'VsRadioSet', props: { options: set, name: 'n' }, init: 'x', other: 'z', gestures: [nth(0), nth(1)], wake: [0, 1] },
        { name: 'checkbox set', comp: 'VsCheckboxSet', props: { options: set, name: 'n' }, init: ['x'], other: ['z'], gestures: [nth(0), nth(1)] },
        {
            name: 'select',
            comp: 'VsSelect',
            props: { options: set },
            init: 'x',
            other: 'z',
            slow: true,
            gestures: [
                ['click trigger', (el) => press(el.querySelector('.vs-select-trigger'))],
                ['choose y', () => press(optionsOf().find((o) => text(o) === 'y'))],
                ['clear', (el) => press(svgSafe(el.querySelector('.vs-select-clear-button')))],
                ['keyboard', (el) => {
                    const t = el.querySelector('.vs-select-trigger');
                    t.focus();
                    for (const k of ['ArrowDown', 'ArrowDown', 'Enter']) {
                        key(t, k);
                    }
                }],
            ],
            wake: [2],
        },
        {
            name: 'select, several',
            comp: 'VsSelect',
            props: { options: set, multiple: true, closableChips: true, selectAll: true },
            init: ['x', 'y'],
            other: ['z', 'x'],
            slow: true,
            gestures: [
                ['click trigger', (el) => press(el.querySelector('.vs-select-trigger'))],
                ['choose y', () => press(optionsOf().find((o) => text(o) === 'y'))],
                ['choose all', () => press(document.querySelector('.vs-select-all'))],
                ['close first chip', (el) => press(svgSafe(el.querySelector('.vs-chip-close-button')))],
                ['clear', (el) => press(svgSafe(el.querySelector('.vs-select-clear-button')))],
            ],
            wake: [3],
        },
        {
            name: 'file drop',
            comp: 'VsFileDrop',
            props: { multiple: true },
            init: [file('a.txt')],
            other: [file('o.txt')],
            gestures: [
                ['drop', (el) => drop(el.querySelector('.vs-file-drop'), [file('b.txt')])],
                ['remove', (el) => press(svgSafe(el.querySelector('.vs-chip-close-button')))],
                ['clear', (el) => press(el.querySelector('.vs-file-drop-close-button'))],
                ['Enter', (el) => key(el.querySelector('.vs-file-drop'), 'Enter')],
            ],
        },
        { name: 'search field', comp: 'VsSearchInput', init: 'i', other: 'o', gestures: [...typing('input', ['a', '']), clearBtn], settle: 450 },
        { name: 'toggle button', comp: 'VsToggle', init: false, other: true, gestures: [['click', (el) => press(el.querySelector('button'))]], locks: ['disabled'], noForm: true },
    ];
}

export default {
    id: 'P06',
    world: 'ui',
    method: 'every sequence, up to the depth, of locking and unlocking (own or form, disabled or read-only), user gestures and parent writes on each real mounted input; at the end every lock is released and a gesture must work again',
    assumptions: ['native controls ignore typing and clicks when the browser says so (disabled, readonly attributes)'],

    scenarios(tier) {
        const deep = tier === 'thorough';
        return variants().map((v) => ({ name: v.name, depth: deep ? (v.slow ? 4 : 5) : v.slow ? 4 : 3, locks: v.locks }));
    },

    start(env, sc) {
        const { h, reactive } = env.vue;
        const lib = env.instance();
        const v = variants().find((x) => x.name === sc.name);
        const state = reactive({ v: v.init });
        const locks = reactive({ disabled: false, readonly: false, formDisabled: false, formReadonly: false });
        const sys = { env, v, state, locks, changes: 0, complaint: null };
        sys.app = env.mount({
            render: () =>
                h(lib.VsForm, { disabled: locks.formDisabled, readonly: locks.formReadonly }, () =>
                    h(lib[v.comp], {
                        ...v.props,
                        disabled: locks.disabled,
                        readonly: locks.readonly,
                        modelValue: state.v,
                        onChange: () => sys.changes++,
                        'onUpdate:modelValue': (x) => (state.v = x),
                    }),
                ),
        });
        return env.flush().then(() => sys);
    },

    enabled(sys) {
        const { v, locks } = sys;
        const keys = v.locks || Object.keys(locks).filter((k) => !v.noForm || !k.startsWith('form'));
        return [
            ...keys.map((k) => `${locks[k] ? 'unlock' : 'lock'}:${k}`),
            ...v.gestures.map((g, i) => 'do:' + i),
            'write:other',
        ];
    },

    async step(sys, action) {
        const { env, v, state, locks } = sys;
        const [kind, a] = action.split(':');
        if (kind === 'lock' || kind === 'unlock') {
            await env.act(() => (locks[a] = kind === 'lock'));
        } else if (kind === 'write') {
            await env.act(() => (state.v = json(state.v) === json(v.other) ? v.init : v.other));
        } else {
            const locked = Object.values(locks).some(Boolean);
            const before = json(state.v);
            const n = sys.changes;
            await this.gesture(sys, a);
            if (locked && json(state.v) !== before) {
                const why = Object.keys(locks).filter((k) => locks[k]);
                sys.complaint = `"${v.gestures[a][0]}" changed the value from ${before} to ${json(state.v)} although locked (${why})`;
            } else if (locked && sys.changes !== n) {
                sys.complaint = `"${v.gestures[a][0]}" on a locked input reported a change`;
            } else if (locked && v.comp !== 'VsSelect') {
                const boxes = all(sys.app.el, 'input[type=checkbox], input[type=radio]');
                const marks = all(sys.app.el, '.vs-checkbox, .vs-switch');
                if (marks.length && boxes.some((b, i) => marks[i] && b.checked !== marks[i].classList.contains('vs-checked'))) {
                    sys.complaint = `"${v.gestures[a][0]}" on a locked input altered the tick the page shows`;
                }
            }
        }
    },

    async gesture(sys, i) {
        const { env, v } = sys;
        await env.act(() => v.gestures[i][1](sys.app.el));
        await env.advance(v.settle || (v.slow ? 60 : 1));
    },

    verdict(sys) {
        return sys.complaint;
    },

    // released, the input must work again
    async finish(sys) {
        const { env, v, state, locks } = sys;
        await env.act(() => {
            for (const k of Object.keys(locks)) {
                locks[k] = false;
            }
            state.v = v.init;
        });
        await env.advance(600);
        const before = json(state.v);
        for (const g of v.wake || v.gestures.keys()) {
            await this.gesture(sys, g);
            if (json(state.v) !== before) {
                return null;
            }
        }
        return 'after all locks were released no gesture changes the value any more';
    },

    state(sys) {
        return json([sys.state.v, sys.locks]);
    },
};
