// A small library repository as GitHub would serve it, written from structured descriptions.
const P = 'packages/vlossom/';

const cell = (s) => String(s ?? '').replace(/\|/g, '\\|');
const code = (s) => (s === '' || s === undefined || s === null ? '' : '`' + cell(s) + '`');

export function table(head, rows) {
    return [`| ${head.join(' | ')} |`, `| ${head.map(() => '---').join(' | ')} |`, ...rows.map((r) => `| ${r.join(' | ')} |`)].join('\n');
}

export function componentReadme(c) {
    const out = [`> [README.ko.md](./README.ko.md)`, '', `# ${c.name}`, '', c.description ?? `The ${c.name} component.`, ''];
    if (c.availableVersion !== null) {
        out.push(`**Available Version**: ${c.availableVersion ?? '2.0.0+'}`, '');
    }
    out.push('## Basic Usage', '', '```html', `<template><${kebab(c.name)} /></template>`, '```', '');
    if (c.props?.length) {
        out.push('## Props', '', table(['Prop', 'Type', 'Default', 'Required', 'Description'], c.props.map((p) => [code(p.name), code(p.type ?? 'string'), code(p.default), p.required ? 'Yes' : p.dash ? '-' : '', cell(p.description)])), '');
    }
    if (c.slots?.length) {
        out.push('## Slots', '', table(['Slot', 'Description'], c.slots.map((s) => [code(s), `The ${s} slot`])), '');
    }
    if (c.events?.length) {
        out.push('## Events', '', table(['Event', 'Payload', 'Description'], c.events.map((e) => [code(e), code('string'), `When ${e}`])), '');
    }
    if (c.methods?.length) {
        out.push('## Methods', '', table(['Method', 'Parameters', 'Description'], c.methods.map((m) => [code(m), '-', `Does ${m}`])), '');
    }
    return out.join('\n');
}

export const kebab = (name) => name.replace(/([a-z0-9])([A-Z])/g, '$1-$2').toLowerCase();

export function componentTypes(c) {
    return c.types ?? `import type { CSSProperties } from 'vue';\n\nexport interface ${c.name}StyleSet {\n    variables?: {\n        tone?: string;\n    };\n    component?: CSSProperties;\n}\n`;
}

export function files(spec) {
    const out = { [P + 'package.json']: JSON.stringify({ name: 'vlossom', version: spec.version }) };
    out[P + 'README.md'] = spec.readme ?? `# Vlossom\n\n## Installation\n\n\`\`\`bash\nnpm i vlossom\n\`\`\`\n\n## Setup\n\n\`\`\`ts\n// setup of ${spec.version}\ncreateVlossom({ components: VlossomComponents })\n\`\`\`\n`;
    for (const c of spec.components ?? []) {
        const dir = `${P}src/components/${kebab(c.name)}/`;
        out[dir + 'README.md'] = c.readme ?? componentReadme(c);
        if (c.types !== null) {
            out[dir + 'types.ts'] = componentTypes(c);
        }
        out[`${dir}${c.name}.vue`] = c.source ?? `<template><!-- ${c.name} of ${spec.version} --></template>`;
    }
    out[P + 'src/components/index.ts'] = '';
    for (const d of spec.directives ?? []) {
        out[`${P}src/directives/vs-${d.name}/README.md`] = d.readme ?? `# v-${d.name}\n\n${d.description ?? `The ${d.name} directive of ${spec.version}.`}\n\n**Available Version**: ${d.availableVersion ?? '2.0.0+'}\n\n## Basic Usage\n\n\`\`\`html\n<div v-${d.name} />\n\`\`\`\n\n## Options\n\n${table(['Binding', 'Type', 'Default', 'Description'], [['`value`', '`string`', '-', 'The value']])}\n`;
    }
    for (const d of spec.composables ?? []) {
        out[`${P}src/composables/${d.dir}/README.md`] = d.readme ?? `# ${d.name}\n\n${d.description ?? `The ${d.name} composable of ${spec.version}.`}\n\n**Available Version**: ${d.availableVersion ?? '2.0.0+'}\n\n## Args\n\n${table(['Arg', 'Type', 'Default', 'Required', 'Description'], [['`first`', '`Ref<string>`', '-', 'Yes', 'One'], ['`second`', '`number`', '`1`', 'No', 'Two']])}\n\n## Returns\n\n- Ref<string>\n\n## Basic Usage\n\n\`\`\`ts\nconst x = ${d.name}()\n\`\`\`\n`;
    }
    if (spec.composables) {
        out[`${P}src/composables/index.ts`] = spec.composables.filter((d) => d.exported !== false).map((d) => `export * from './${d.dir}/${d.dir}-composable';\n`).join('');
    }
    for (const d of spec.plugins ?? []) {
        out[`${P}src/plugins/${d.name}-plugin/README.md`] = d.readme ?? `# ${d.name} Plugin\n\n**Available Version**: ${d.availableVersion ?? '2.0.0+'}\n\n${d.description ?? `The ${d.name} plugin of ${spec.version}.`}\n\n## Basic Usage\n\n\`\`\`ts\n$vs.${d.name}.open()\n\`\`\`\n\n## Methods\n\n${table(['Method', 'Parameters', 'Description'], [['`open`', '`content: string \\| Component, options?: Options`', 'Opens'], ['`clear`', '-', 'Clears']])}\n`;
    }
    for (const [name, css] of Object.entries(spec.styles ?? {})) {
        out[`${P}src/styles/${name}`] = css;
    }
    return out;
}
