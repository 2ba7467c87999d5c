// How a user operates each form input, and what each one shows, in terms of the rendered page only.
import { all, click, nativeToggle, typeInto, text } from './kit.mjs';

const files = new Map();
export function file(name, type = 'text/plain', content = 'x') {
    const k = name + '|' + type + '|' + content;
    if (!files.has(k)) {
        files.set(k, new File([content], name, { type }));
    }
    return files.get(k);
}

export function drop(el, list) {
    const e = new Event('drop', { bubbles: true, cancelable: true });
    Object.defineProperty(e, 'dataTransfer', { value: { files: list } });
    el.dispatchEvent(e);
}

// values: three distinct values a user can produce; empty: the cleared value;
// edit(el, value): what the user does to get there (returns false if it cannot be done from here);
// shown(el): the value the page shows
export const drivers = {
    VsInput: {
        values: ['a', 'b', 'c'],
        empty: '',
        edit: (el, v) => typeInto(el.querySelector('input'), v),
        shown: (el) => el.querySelector('input').value,
    },
    VsTextarea: {
        values: ['a', 'b', 'c'],
        empty: '',
        edit: (el, v) => typeInto(el.querySelector('textarea'), v),
        shown: (el) => el.querySelector('textarea').value,
    },
    VsDatePicker: {
        values: ['2024-01-01', '2024-01-02', '2024-01-03'],
        empty: '',
        edit: (el, v) => typeInto(el.querySelector('input'), v),
        shown: (el) => el.querySelector('input').value,
    },
    VsCheckbox: {
        values: [true, false],
        empty: false,
        props: { name: 'n', checkLabel: 'x' },
        edit: (el, v) => (shownCheck(el) !== v ? nativeToggle(el.querySelector('input')) : false),
        shown: (el) => shownCheck(el),
        step: (el) => nativeToggle(el.querySelector('input')),
    },
    VsSwitch: {
        values: [true, false],
        empty: false,
        edit: (el, v) => (shownSwitch(el) !== v ? nativeToggle(el.querySelector('input')) : false),
        shown: (el) => shownSwitch(el),
        step: (el) => nativeToggle(el.querySelector('input')),
    },
    VsRadio: {
        values: ['r', null],
        empty: null,
        props: { name: 'n', radioValue: 'r' },
        edit: (el, v) => (v === 'r' ? nativeToggle(el.querySelector('input')) : false),
        shown: (el) => (el.querySelector('input').checked ? 'r' : null),
    },
    VsRadioSet: {
        values: ['x', 'y', 'z'],
        empty: null,
        props: { options: ['x', 'y', 'z'], name: 'n' },
        edit: (el, v) => nativeToggle(all(el, 'input')[['x', 'y', 'z'].indexOf(v)]),
        shown: (el) => {
            const on = all(el, 'input').findIndex((i) => i.checked);
            return on < 0 ? null : ['x', 'y', 'z'][on];
        },
    },
    VsCheckboxSet: {
        values: [['x'], ['x', 'y'], ['y']],
        empty: [],
        props: { options: ['x', 'y'], name: 'n' },
        // one click per edit: only values one toggle away
        edit: (el, v) => {
            const now = checkedOf(el);
            const diff = ['x', 'y'].filter((o) => now.includes(o) !== v.includes(o));
            if (diff.length !== 1) {
                return false;
            }
            nativeToggle(all(el, 'input')[['x', 'y'].indexOf(diff[0])]);
        },
        shown: (el) => checkedOf(el),
        unordered: true,
    },
    VsSelect: {
        values: ['x', 'y', 'z'],
        empty: null,
        props: { options: ['x', 'y', 'z'] },
        // opens the list if needed, then clicks the option
        edit: async (el, v, env) => {
            const trigger = el.querySelector('.vs-select-trigger');
            if (!optionsOf().length) {
                await env.act(() => click(trigger));
                await env.advance(60);
            }
            const opt = optionsOf().find((o) => text(o) === v);
            if (!opt) {
                return false;
            }
            await env.act(() => click(opt));
            await env.advance(500);
        },
        shown: (el) => selectShown(el),
        slow: true,
    },
    VsFileDrop: {
        values: () => [[file('a.txt')], [file('b.txt')], [file('c.txt')]],
        empty: [],
        edit: (el, v) => drop(el.querySelector('.vs-file-drop'), v),
        shown: (el) => all(el, '.vs-file-drop-file-name').map(text),
    },
};

function shownCheck(el) {
    return el.querySelector('.vs-checkbox').classList.contains('vs-checked');
}
function shownSwitch(el) {
    return el.querySelector('.vs-switch').classList.contains('vs-checked');
}
function checkedOf(el) {
    return ['x', 'y'].filter((o, i) => all(el, '.vs-checkbox')[i].classList.contains('vs-checked'));
}
export function optionsOf() {
    return all(document, '.vs-select-option');
}
function selectShown(el) {
    return el.querySelector('.vs-select-placeholder') ? null : text(el.querySelector('.vs-select-value'));
}
export const valuesOf = (d) => (typeof d.values === 'function' ? d.values() : d.values);
