"""random 1C modules: a tree of nodes rendered to text"""

LINES = ['a', '', '  Возврат 1;', '\tСтр = "x";', '// комментарий', '&НаКлиенте', 'Процедура А() Экспорт', 'КонецПроцедуры', '#Если Клиент Тогда',
         '#КонецЕсли', '#Иначе', 'Сообщить("#Область include_fake_X");', '|#Область', '   ', '//#Область include_no_Y', '""', '# Область',
         ' //', '&НаСервере // обычный', '#Вставка', '#КонецВставки', 'x\ufeffx', 'x\x0by', 'я\u2028я', 'a\x85b', '//DynamicDirectivf',
         '#include_x']
DD = ['&НаКлиенте', '&НаСервере', '&НаСервереБезКонтекста', '&НаКлиентеНаСервереБезКонтекста']


class Gen:
    def __init__(self, rng, flat=False, kinds=('include_', 'includr_')):
        self.rng = rng
        self.n = 0
        self.flat = flat
        self.kinds = kinds

    def name(self):
        self.n += 1
        r = self.rng
        base = r.choice(['М', 'Mod', 'root', 'None', 'Об', 'data', 'x1']) + (str(self.n) if self.n > 1 or r.random() < .5 else '')
        k = r.random()
        if self.flat or k < .25:
            return base
        if k < .75:
            return r.choice(['q', 'lib', 'Общая']) + '_' + base
        if k < .9:
            return 'q_w_' + base
        return '_up_' + base

    def body(self, depth, dd):
        r = self.rng
        out = []
        for _ in range(r.randrange(0, 5)):
            k = r.random()
            if depth and k < .3:
                kind = r.choice(self.kinds)
                own = r.choice(DD) if r.random() < .3 else None
                out.append({'area': kind, 'name': self.name(), 'dd': own, 'ind': r.choice(['', '', '\t', '  ']),
                            'sp': r.choice(['', '', '  ']), 'tail': r.choice(['', '', ' // x', ' ']),
                            'body': self.body(depth - 1, own or dd)})
            elif depth and k < .42:
                out.append({'region': r.choice(['Имя', 'includeX', '', 'include']), 'ind': r.choice(['', '\t']),
                            'body': self.body(depth - 1, dd)})
            elif dd and k < .5:
                out.append({'line': dd + ' //DynamicDirective' + r.choice(['', ' x', ' //y'])})
            elif dd and k < .53:
                out.append({'line': r.choice(['  ', '']) + dd + ' обычная'})
            else:
                out.append({'line': r.choice(LINES)})
        return out


def lines(nodes):
    for n in nodes:
        if 'line' in n:
            yield n['line']
        elif 'area' in n:
            yield n['ind'] + '#Область ' + n['area'] + n['sp'] + n['name'] + (' //' + n['dd'] if n['dd'] else '')
            yield from lines(n['body'])
            yield n['ind'] + '#КонецОбласти' + n['tail']
        else:
            yield n['ind'] + '#Область ' + n['region']
            yield from lines(n['body'])
            yield n['ind'] + '#КонецОбласти'


def render(nodes, last_eol=True):
    t = '\n'.join(lines(nodes))
    return t + '\n' if last_eol else t


def areas(nodes):
    for n in nodes:
        if 'body' in n:
            if 'area' in n:
                yield n
            yield from areas(n['body'])


def shrinks(nodes):
    import hl
    for l in hl.shrink_list(nodes):
        yield l
    for i, n in enumerate(nodes):
        if 'body' in n:
            yield nodes[:i] + n['body'] + nodes[i + 1:]
            for b in shrinks(n['body']):
                yield nodes[:i] + [dict(n, body=b)] + nodes[i + 1:]
