"""Example word for every agreement signature of the dictionary -> data/signatures.json

Run: PYTHONPATH=/repo:/verif /opt/venv/bin/python tools/mksignatures.py (takes minutes)"""
import json, random
from vlib import ref

GRAMS = ['masc', 'femn', 'neut', 'Ms-f', 'ms-f', 'GNdr', 'sing', 'plur', 'Sgtm', 'Pltm', 'Fixd',
         'nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'voct', 'gen2', 'acc2', 'loc2', 'gen1', 'loc1', 'anim', 'inan']


def signature(grams):
    return tuple(_ for _ in GRAMS[:-2] if _ in grams)


def main():
    morph = ref.pymorphy()
    found = {}
    letters = set('абвгдеёжзийклмнопрстуфхцчшщъыьэюя')
    count = 0
    for item in morph.dictionary.iter_known_words(''):
        word, tag, normal = item[0], item[1], item[2]
        key = signature(tag.grammemes)
        if set(word) <= letters and len(word) > 1:
            words = found.setdefault(key, [])
            if len(words) < 3:
                count += 1
                if word not in words:
                    words.append(word)
            elif random.random() < 0.0005:
                words[random.randrange(3)] = word
    result = [[list(key), sorted(words)] for key, words in sorted(found.items())]
    with open('data/signatures.json', 'w', encoding='utf8') as file:
        json.dump(result, file, ensure_ascii=False, indent=0)
    print(len(result))


main()
