exec(open('/tmp/plants1.py').read().split("B={}")[0])
B={}
B['c13-csv-append']=dict(property='C13',edits=[(OG,None,'        df.to_csv(filename+"_output_matrix.csv")','        df.to_csv(filename+"_output_matrix.csv", mode="a")')],
 needs='a second run in a folder where the results of an earlier one lie',
 breaks='the matrix file holds the results of both runs below one another',
 demo=H+'''
import pandas
b.mechanism(['O3 + APINENE = PINONIC + OH : 1.0D-16'])
for i in range(2):
    r = b.run('gas', {'simulation_time': 300.0, 'save_output': True}, {'O3': 18.0, 'APINENE': 30.0})
    m = pandas.read_csv(b.path('MCM_APINENE_output_matrix.csv'), index_col=0)
    if m.shape != (4, len(r.index)) and m.shape != (3, len(r.index)):
        fail('run %d: the matrix file has %d rows and %d columns' % (i, m.shape[0], m.shape[1]))
''')
B['c22-product-set']=dict(property='C22',edits=[(P,'extract_mechanism',"        products = [x.strip(' ') for x in products] #strip away all whitespace","        products = [x for y in set(products) for x in [y.strip(' ')]*products.count(y)] #strip away all whitespace")],
 needs='two runs with different hash seeds and a reaction with several products that are new',
 breaks='the numbering of the species, and so every saved result, depends on the hash seed of the interpreter',
 demo=H+'''
b.mechanism(['O3 + APINENE = PINONIC + ' + ' + '.join('X%d' % i for i in range(12)) + ' : 1.0D-16'])
ref = None
for s in (1, 2, 3):
    r = b.run('gas', {'simulation_time': 100.0}, {'O3': 18.0, 'APINENE': 30.0}, hashseed=s)
    if ref is not None and r.index != ref:
        fail('the order of the species depends on the hash seed')
    ref = r.index
''')
