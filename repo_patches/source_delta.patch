From ecbc8a0b4213976140b9f78a474695681dc23f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 01/27] fix: sum the stoichiometry of a product listed more
 than once in a reaction

---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index aa72dae..41aaedb 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -279,7 +279,7 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                             species_hess_gain_data[product]=[]
                         species_hess_gain_data[product].append(equation_step) #so from this we can work out a dx/dy
                         # -- Update loss dictionaries -- 
-                        if equation_step in gain_dict[reactant]:
+                        if equation_step in gain_dict[product]:
                             gain_dict[product][equation_step]+=stoich
                         else:
                             gain_dict[product][equation_step]=stoich
-- 
2.43.0


From b4927c94ba9fa2f4441c47e18636f23cc0817bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 02/27] fix: keep the species name intact when its
 stoichiometry is given as a prefix

---
 Parse_eqn_file.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 41aaedb..f313012 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -195,13 +195,10 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                     else:
                         stoich=1.0
                 elif len(temp)>1:
-                    #If this is the case, we need to ensure the reactant extraction is unique. For example
-                    #If the string is '2NO2' the above procedure extracts 'NO' as the unique reactant. 
-                    #We therefore need to ensure that the reactant is 'NO2'. To do this we cut the value
-                    #in temp[0] away from the original string. Lets assume that we can attach the first
-                    #part of the text with the second number in temp. Thus
+                    #If this is the case, the name of the reactant holds numbers too. For example, from the
+                    #string '2NO2' we cut only the value in temp[0], which leaves the reactant 'NO2'
                     if reactant.index(stoich) == 0 :
-                        reactant=reactant.split(stoich,1)[1]+temp[1]
+                        reactant=reactant.split(stoich,1)[1]
                         stoich=float(stoich)
                     else:
                         stoich=1.0
@@ -252,13 +249,10 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
                             else:
                                 stoich=1.0
                         elif len(temp)>1:
-                            #If this is the case, we need to ensure the reactant extraction is unique. For example
-                            #If the string is '2NO2' the above procedure extracts 'NO' as the unique reactant. 
-                            #We therefore need to ensure that the reactant is 'NO2'. To do this we cut the value
-                            #in temp[0] away from the original string. Lets assume that we can attach the first
-                            #part of the text with the second number in temp. Thus
+                            #If this is the case, the name of the product holds numbers too. For example, from the
+                            #string '2NO2' we cut only the value in temp[0], which leaves the product 'NO2'
                             if product.index(stoich) == 0 :
-                                product=product.split(stoich,1)[1]+temp[1]
+                                product=product.split(stoich,1)[1]
                                 stoich=float(stoich)
                             else:
                                 stoich=1.0
-- 
2.43.0


From 852e35b7ad18315fdb0973713a6608f3ff484f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 03/27] fix: count a reactant listed twice in a reaction to its
 power once

---
 Parse_eqn_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index f313012..3773fc7 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -210,7 +210,9 @@ def extract_mechanism(filename,print_options): #Change to the filename of intere
             #Now store the stoichiometry and reactant in dictionaries
             if reactant not in ['hv']:
                 stoich_dict[equation_step][reactant_step]=stoich
-                rate_dict_reactants[equation_step][reactant_step]=reactant 
+                # A reactant listed twice has its stoichiometry summed in loss_dict, so it is only listed once here
+                if reactant not in rate_dict_reactants[equation_step].values():
+                    rate_dict_reactants[equation_step][reactant_step]=reactant 
                 # -- Update species dictionaries --
                 if reactant not in species_dict.values(): #check to see if entry already exists
                     species_dict[species_step]=reactant # useful for checking all parsed species
-- 
2.43.0


From 197d93b38b82909d3e6e8196fb36ccaa9b3dcdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 04/27] fix: write the parsed stoichiometry, not one more, in
 the Fortran loss and gain

---
 Parse_eqn_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 3773fc7..3a4a48b 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2597,13 +2597,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('-1.0*r(%s)'%(equation_step+1))
                             else:
-                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-1.0*r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         else:
                             if stoich==1:
                                 f.write('-r(%s)'%(equation_step+1))
                             else:
-                                f.write('-r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('-r(%s)*%s'%(equation_step+1,stoich))
                             loss_step+=1
                         flag+=1
                         
@@ -2620,13 +2620,13 @@ def write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,s
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         else:
                             if stoich==1:
                                 f.write('+r(%s)'%(equation_step+1))
                             else:
-                                f.write('+r(%s)*%s'%(equation_step+1,stoich+1))
+                                f.write('+r(%s)*%s'%(equation_step+1,stoich))
                             gain_step+=1
                         flag+=1
                         
-- 
2.43.0


From a0d78a398f242bcb83892499ad707bd91be79422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 05/27] fix: sum loss and gain of a species on both sides of a
 reaction in the sparse matrix

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 3a4a48b..859225f 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2397,10 +2397,10 @@ def write_loss_gain_matrix(filename,equations,num_species,loss_dict,gain_dict,sp
             for equation_step, stoich in gain_dict[species].items():
                 if stoich==1:
                     #f.write('+r[%s]'%(equation_step))
-                    loss_gain[species_step,equation_step]=1.0
+                    loss_gain[species_step,equation_step]+=1.0
                 else:
                     #f.write('+r[%s]*%s'%(equation_step,stoich))
-                    loss_gain[species_step,equation_step]=1.0*stoich
+                    loss_gain[species_step,equation_step]+=1.0*stoich
                 
     #Now convert matrix type for use in numerical operations later
     loss_gain = loss_gain.tocsr()
-- 
2.43.0


From b1d0c926591601a5456b367387a2c7b3c962bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 06/27] fix: take every stoichiometric coefficient into account
 in the gas phase Jacobian

---
 Parse_eqn_file.py | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 859225f..4214e41 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2782,7 +2782,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_loss_temp=list(set(reactants_list_loss_temp))
                         # Check if 'otherspecie' is in this reaction
                         if reactant in reactants_list_loss_temp:
-                            if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 2: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
@@ -2821,12 +2821,12 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('-%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('-%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('*%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -2847,6 +2847,9 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('-1.0*r(%s)'%(equation+1))
+                            # and how much of our specie this reaction uses
+                            if loss_dict[species][equation] != 1:
+                                f.write('*%s'%(loss_dict[species][equation]))
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -2855,7 +2858,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_gain_temp=[reactant for step, reactant in rate_dict_reactants[equation].items()]
                         reactants_list_gain_temp=list(set(reactants_list_gain_temp))
                         if reactant in reactants_list_gain_temp:
-                            if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 2: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
@@ -2897,12 +2900,12 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y(%s)'%(stoich_first,species_dict2array[reactant2]+1))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('+%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('+%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y(%s)**%s'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
+                                                    f.write('*%s*y(%s)**(%s)'%(stoich_first,species_dict2array[reactant2]+1,stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -2923,6 +2926,9 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                                 f.write('*r(%s)'%(equation+1))
                             elif step == 1:
                                 f.write('+1.0*r(%s)'%(equation+1))
+                            # and how much of our specie this reaction makes
+                            if gain_dict[species][equation] != 1:
+                                f.write('*%s'%(gain_dict[species][equation]))
                             equation_flag+=1
 
 
@@ -3085,12 +3091,12 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('-%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('-%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('*%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -3111,6 +3117,9 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('-1.0*r[%s]'%(equation))
+                            # and how much of our specie this reaction uses
+                            if loss_dict[species][equation] != 1:
+                                f.write('*%s'%(loss_dict[species][equation]))
                             equation_flag+=1
                             
                 # Now repeat the above procedure but for reactions that lead to concentration gain    
@@ -3161,12 +3170,12 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                                     step+=1
                                                 else:
                                                     f.write('*%s*y[%s]'%(stoich_first,species_dict2array[reactant2]))
-                                            elif stoich_first > 2:
+                                            else:
                                                 if step == 1:
-                                                    f.write('+%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('+%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                                     step+=1
                                                 else:
-                                                    f.write('*%s*y[%s]**%s'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
+                                                    f.write('*%s*y[%s]**(%s)'%(stoich_first,species_dict2array[reactant2],stoich_first-1))
                                         elif reactant2 != reactant:
                                             stoich=loss_dict[reactant2][equation]
                                             if stoich == 1:
@@ -3187,6 +3196,9 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                                 f.write('*r[%s]'%(equation))
                             elif step == 1:
                                 f.write('+1.0*r[%s]'%(equation))
+                            # and how much of our specie this reaction makes
+                            if gain_dict[species][equation] != 1:
+                                f.write('*%s'%(gain_dict[species][equation]))
                             equation_flag+=1
 
 
-- 
2.43.0


From bba6c215550cb1ce956ec16a361608d9ba1acd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 07/27] fix: correct misspelled entries in the list of RO2
 species

---
 Parse_eqn_file.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 4214e41..e572476 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -1782,7 +1782,7 @@ def write_RO2_indices(filename,species_dict2array):
     #The following is a list of species defined as contributing to total RO2 concetrations [old MCM]
     RO2_names = ['HOCH2CH2O2','HO1C3O2','HYPROPO2','IPROPOLO2','NBUTOLAO2','NBUTOLBO2','BUT2OLO2','IBUTOLBO2','IBUTOLCO2','TBUTOLO2','HO3C5O2', 
     'PE2ENEBO2','HM2C43O2','M2BUOL2O2','HM33C3O2','ME3BUOLO2','HO2M2C4O2','ME2BU2OLO2','PROL11MO2','H2M3C4O2','ME2BUOLO2','CYHEXOLAO2','MIBKAOHAO2',  
-    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2,'
+    'MIBKAOHBO2','MIBKHO4O2','CH3CO3','NMBOAO2','NMBOBO2','MBOAO2','MBOBO2','CH3O2','HCOCH2O2','C2H5CO3','C2H5O2','C3H7CO3','BUTALO2','NC3H7O2','IPRCO3','IBUTALBO2',
     'IBUTALCO2','IC3H7O2','C4H9CO3','C4CHOBO2','NC4H9O2','ACO3','ACRO2','OCCOHCO2','CH3C2H2O2','MACO3','MACRO2','MACROHO2','C3DBCO3','C4CONO3O2','C4NO3COO2',
     'C4OCCOHCO2','COCCOH2CO2','SC4H9O2',  
     'IC4H9O2','TC4H9O2','PEAO2','PEBO2',  
@@ -1802,25 +1802,25 @@ def write_RO2_indices(filename,species_dict2array):
     'C4NO32M1O2','C4NO32M2O2','C4M3NO31O2',  
     'C4M3NO32O2','IPRCHOOA','ME3BU2OLO2',  
     'C4M2NO32O2','C4M2NO33O2','C65NO36O2',  
-    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2)', 
+    'C66NO35O2','C6OH5O2','HO5C6O2','C62NO33O2', 
     'C63NO32O2','C64OH5O2','C65OH4O2',  
     'C4ME2NO3O2','C4ME2OHO2','BZBIPERO2',  
     'C6H5CH2O2','TLBIPERO2','OXYLO2',  
     'OXYBIPERO2','MXYLO2','MXYBIPERO2','PXYLO2',  
     'PXYBIPERO2','C6H5C2H4O2','EBZBIPERO2',  
-    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2)',  
+    'PHC3O2','PBZBIPERO2','PHIC3O2','IPBZBIPRO2',  
     'TM123BO2','TM123BPRO2','TM124BO2',  
     'TM124BPRO2','TMBO2','TM135BPRO2','ETOLO2',  
     'OETLBIPRO2','METLBIPRO2','PETLBIPRO2',  
     'DM35EBO2','DMEBIPRO2','DE35TO2',  
     'DETLBIPRO2','NSTYRENO2','STYRENO2',  
     'C6H5CO3','C6H5O2','CH2CLO2','CHCL2O2',  
-    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2)',  
+    'CCL3O2','CCL3CH2O2','TCEOHO2','C2CL3OHAO2',  
     'C2CL3OHBO2','C2CL2OHO2','DICLETO2',  
     'CH2OHCL2O2','CL2OHCH2O2','CL12PRAO2',  
     'CL12PRBO2','CL12PRCO2','CH3CCL2O2',  
     'CHCL2CH2O2','CH2CLCH2O2','CH3CHCLO2',  
-    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2)',  
+    'CHCL2CL2O2','CH2CL3O2','CHCL3O2','CCLNO3O2',  
     'CNO3CLO2','CCLOHCH2O2','CH2OHCCLO2',  
     'NBUTDAO2','NBUTDBO2','BUTDAO2','BUTDBO2',  
     'BUTDCO2','NISOPO2','ISOP34O2','CHOOCH2O2',  
@@ -1831,7 +1831,7 @@ def write_RO2_indices(filename,species_dict2array):
     'NBUACETCO2','SBUACETAO2','SBUACETBO2',  
     'MCOOTBO2','TBOCOCH2O2','CH3OCH2O2',  
     'DIETETO2','ETOC2O2','MTBEAO2','MTBEBO2',  
-    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2)',  
+    'DIIPRETO2','IPROMC2O2','ETBEAO2','ETBEBO2',  
     'ETBECO2','MO2EOLAO2','MO2EOLBO2',  
     'EOX2EOLAO2','EOX2EOLBO2','PR2OHMOXO2',  
     'H2C3OCO2','BOX2EOHAO2','BOX2EOHBO2',  
@@ -1848,13 +1848,13 @@ def write_RO2_indices(filename,species_dict2array):
     'LIMBO2','LIMCO2','NBCO2','BCAO2',  
     'BCBO2','BCCO2','DMMAO2','DMMBO2',  
     'DMCO2','CH3SCH2O2','HODMSO2','ETHOXO2',  
-    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3)',  
+    'BUT2CO3','C3ME3CO3','C3ME3CHOO2','HOCH2CO3',  
     'CH3CHOHCO3','IPRHOCO3','IPRCHOO',  
     'BZEMUCCO3','BZEMUCO2','C5DIALO2','NPHENO2',  
     'PHENO2','CRESO2','NCRESO2','TLEMUCCO3',  
     'TLEMUCO2','C615CO2O2','OXYMUCCO3',  
     'OXYMUCO2','MC6CO2O2','NOXYOLO2','OXYOLO2',  
-    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2)',  
+    'MXYMUCCO3','MXYMUCO2','C726CO5O2','MXYOLO2',  
     'NMXYOLO2','PXYMUCCO3','PXYMUCO2',  
     'C6M5CO2O2','NPXYOLO2','PXYOLO2','EBENZOLO2',  
     'NEBNZOLO2','EBZMUCCO3','EBZMUCO2',  
@@ -1867,7 +1867,7 @@ def write_RO2_indices(filename,species_dict2array):
     'TM124MUCO2','C7CO2M5O2','NTM135OLO2',  
     'TM135OLO2','TM135MUCO3','TM135MUCO2',  
     'C7M2CO5O2','OETLMUCCO3','OETLMUCO2',  
-    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3)',  
+    'MC7CO2O2','NOETOLO2','OETOLO2','METLMUCCO3',  
     'METLMUCO2','C826CO3O2','METOLO2',  
     'NMETOLO2','PETLMUCCO3','PETLMUCO2',  
     'C7M6CO2O2','NPETOLO2','PETOLO2','DMEBMUCO3',  
-- 
2.43.0


From faee9c6f356e91e7dcb36b4b45c57452c4f72619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 08/27] fix: apply every function replacement when converting a
 rate coefficient, not only the last

---
 rate_coeff_conversion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index beae9fe..8093b3a 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -80,8 +80,9 @@ def convert_rate_mcm(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -161,8 +162,9 @@ def convert_rate_mcm_numba(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
@@ -264,8 +266,9 @@ def convert_rate_mcm_fortran(rate_dict):
     new_rate_full=[]
     for equation_step, rate_full in rate_dict.items():
         
+        temp_text=rate_full
         for operation in math_list:
-            temp_text=rate_full.replace(operation[0],operation[1])
+            temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
 
-- 
2.43.0


From 614369b8a861ff8d7ead1783a53200bd0936ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 09/27] fix: convert double precision numbers with an exponent
 of zero

---
 rate_coeff_conversion.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index 8093b3a..30e7b0f 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -38,6 +38,7 @@
 # covers all expected formats. This is dealt with in a seperate file
 
 import pdb
+import re
 
                 
 def convert_rate_mcm(rate_dict):
@@ -167,6 +168,8 @@ def convert_rate_mcm_numba(rate_dict):
             temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
+        # An exponent of zero needs the number in front of it to tell it from a name such as KD0
+        temp_text=re.sub(r'(?<=[0-9.])D0',r'E+0',temp_text)
 
         temp_text_list=list(temp_text)
         indices= []
@@ -271,6 +274,8 @@ def convert_rate_mcm_fortran(rate_dict):
             temp_text=temp_text.replace(operation[0],operation[1])
         for syntax in map_list:
             temp_text=temp_text.replace(syntax[0],syntax[1])
+        # An exponent of zero needs the number in front of it to tell it from a name such as KD0
+        temp_text=re.sub(r'(?<=[0-9.])D0',r'E+0',temp_text)
 
         temp_text_list=list(temp_text)
         #indices= []
-- 
2.43.0


From 159d4a1a2efc3f19d76cfb193a4280fd058b42c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 10/27] fix: put negative powers in parentheses in Fortran rate
 coefficients

---
 rate_coeff_conversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rate_coeff_conversion.py b/rate_coeff_conversion.py
index 30e7b0f..047c6fb 100644
--- a/rate_coeff_conversion.py
+++ b/rate_coeff_conversion.py
@@ -277,6 +277,9 @@ def convert_rate_mcm_fortran(rate_dict):
         # An exponent of zero needs the number in front of it to tell it from a name such as KD0
         temp_text=re.sub(r'(?<=[0-9.])D0',r'E+0',temp_text)
 
+        # Fortran does not allow a signed number straight after an operator
+        temp_text=re.sub(r'\*\*([-+][0-9.]+(?:E[-+]?[0-9]+)?)',r'**(\1)',temp_text)
+
         temp_text_list=list(temp_text)
         #indices= []
         #index = -1
-- 
2.43.0


From 43f825a91ec0262aab8c7b235e0be7c232b3f621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 11/27] fix: give every thread its own slice indices in the
 partitioning loop

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index e572476..28501ad 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3322,7 +3322,7 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('    size_array(:)=0.0D0 \n') 
     f.write('    dy_dt(:)=0.0D0 \n') 
     f.write('!$OMP PARALLEL DO &\n') 
-    f.write('!$OMP& PRIVATE(size_step,total_mass),& \n') 
+    f.write('!$OMP& PRIVATE(size_step,total_mass,index1,index2),& \n') 
     f.write('!$OMP& PRIVATE(total_moles,y_mole_fractions,temp_array), & \n') 
     f.write('!$OMP& PRIVATE(mass_array,mass_fractions_array,density_array), & \n') 
     f.write('!$OMP& PRIVATE(density,water_moles), & \n') 
@@ -3539,7 +3539,7 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('    dy_dt(:)=0.0D0 \n') 
     f.write('\n')     
     f.write('!$OMP PARALLEL DO &\n') 
-    f.write('!$OMP& PRIVATE(size_step,total_mass),& \n') 
+    f.write('!$OMP& PRIVATE(size_step,total_mass,index1,index2),& \n') 
     f.write('!$OMP& PRIVATE(total_moles,y_mole_fractions,temp_array), & \n') 
     f.write('!$OMP& PRIVATE(mass_array,mass_fractions_array,density_array), & \n') 
     f.write('!$OMP& PRIVATE(density,water_moles), & \n') 
-- 
2.43.0


From bff4635c1112c369e3102795155c20ee13166e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 12/27] fix: reduce the condensed water over threads, starting
 from zero

---
 Parse_eqn_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 28501ad..055769f 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3524,6 +3524,7 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('    INTEGER(8), PARAMETER :: num_species = %s \n'%(num_species))   
     f.write('    INTEGER(8), PARAMETER :: num_species_condensed = %s \n'%(num_species_condensed))   
     f.write('    !Set all output variables to 0 \n') 
+    f.write('    total_water_cond_mass=0.0D0 \n') 
     f.write('    total_SOA_mass_array(:)=0.0D0 \n') 
     f.write('    dy_dt_gas_matrix(:,:)=0.0D0 \n') 
     f.write('    Pressure_eq(:)=0.0D0 \n') 
@@ -3547,7 +3548,8 @@ def write_partitioning_section_fortran_ignore(total_length_y,num_bins,num_specie
     f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \n') 
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
     f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \n') 
-    f.write('!$OMP& SHARED(total_water_cond_mass,size_array), & \n') 
+    f.write('!$OMP& REDUCTION(+:total_water_cond_mass), & \n') 
+    f.write('!$OMP& SHARED(size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
     f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \n') 
-- 
2.43.0


From 954b36fc8423200e89c128c166d2afc39f5477b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 13/27] fix: make the partitioning code for all species compile
 and sum the mass over threads

---
 Parse_eqn_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 055769f..9eb2dd8 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -3308,7 +3308,8 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('    INTEGER(8), PARAMETER :: num_species = %s \n'%(num_species))   
     f.write('\n')     
     f.write('    !Set all output variables to 0 \n') 
-    f.write('    total_SOA_mass_array(:)=0.0D0 \n') 
+    f.write('    total_water_cond_mass=0.0D0 \n') 
+    f.write('    total_SOA_mass=0.0D0 \n') 
     f.write('    dy_dt_gas_matrix(:,:)=0.0D0 \n') 
     f.write('    Pressure_eq(:)=0.0D0 \n') 
     f.write('    Cstar_i_m_t(:)=0.0D0 \n') 
@@ -3330,7 +3331,8 @@ def write_partitioning_section_fortran(total_length_y,num_bins,num_species):
     f.write('!$OMP& PRIVATE(Correction_part3,Correction,kelvin_factor), & \n') 
     f.write('!$OMP& PRIVATE(Pressure_eq,Cstar_i_m_t,k_i_m_t_part1), & \n') 
     f.write('!$OMP& PRIVATE(k_i_m_t,dm_dt), & \n') 
-    f.write('!$OMP& SHARED(total_SOA_mass,total_water_cond_mass,size_array), & \n') 
+    f.write('!$OMP& REDUCTION(+:total_SOA_mass,total_water_cond_mass), & \n') 
+    f.write('!$OMP& SHARED(size_array), & \n') 
     f.write('!$OMP& SHARED(ycore,core_diss,mw_array,density_input), & \n') 
     f.write('!$OMP& SHARED(C_g_i_t,dy_dt,core_mass_array,R_gas,Psat), & \n') 
     f.write('!$OMP& SHARED(gamma_gas,NA,alpha_d_org,Model_temp,DStar_org), & \n') 
-- 
2.43.0


From 929fadb7a45c33369a412853275b6e8aa5930cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 14/27] fix: let the time of day advance from one batch to the
 next

---
 Aerosol/f2py/ODE_solver.py | 4 ++--
 ODE_solver.py              | 8 ++++----
 f2py/ODE_solver.py         | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index 89a5372..b255712 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -68,8 +68,8 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         dy_dt=numpy.zeros((total_length_y,1),)
         
         #pdb.set_trace()
-        # Calculate time of day
-        time_of_day_seconds=start_time+t
+        # Calculate time of day. The solver time restarts with every batch, total_time counts the batches already done
+        time_of_day_seconds=start_time+total_time+t
         
         #pdb.set_trace()
         # make sure the y array is not a list. Assimulo uses lists
diff --git a/ODE_solver.py b/ODE_solver.py
index a338b9e..7198dfc 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -79,8 +79,8 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
         #pdb.set_trace()
         #Here we use the pre-created Numba based functions to arrive at our value for dydt
-        # Calculate time of day
-        time_of_day_seconds=start_time+t
+        # Calculate time of day. The solver time restarts with every batch, total_time counts the batches already done
+        time_of_day_seconds=start_time+total_time+t
 
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
@@ -152,8 +152,8 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         """
 
         # Different solvers might call jacobian at different stages, so we have to redo some calculations here
-        # Calculate time of day
-        time_of_day_seconds=start_time+t
+        # Calculate time of day. The solver time restarts with every batch, total_time counts the batches already done
+        time_of_day_seconds=start_time+total_time+t
 
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 58679f6..560535f 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -68,8 +68,8 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
         """
 
         #pdb.set_trace()
-        # Calculate time of day
-        time_of_day_seconds=start_time+t
+        # Calculate time of day. The solver time restarts with every batch, total_time counts the batches already done
+        time_of_day_seconds=start_time+total_time+t
         
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
@@ -109,8 +109,8 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
         """
 
         # Different solvers might call jacobian at different stages, so we have to redo some calculations here 
-        # Calculate time of day
-        time_of_day_seconds=start_time+t
+        # Calculate time of day. The solver time restarts with every batch, total_time counts the batches already done
+        time_of_day_seconds=start_time+total_time+t
         
         # make sure the y array is not a list. Assimulo uses lists
         y_asnumpy=numpy.array(y)
-- 
2.43.0


From 2c9111544755d57b15d753b7a7dd1b4e48fcfeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 15/27] fix: run as many batches as the output matrices have
 rows

---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 4 ++--
 Aerosol/f2py/ODE_solver.py                        | 4 ++--
 ODE_solver.py                                     | 4 ++--
 f2py/ODE_solver.py                                | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index ce71d93..7a6698d 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -206,7 +206,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     # the batch step change for increased speed
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,6))) # Enough whole batches to cover the simulation time
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -218,7 +218,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index b255712..f7e3e65 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -246,7 +246,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=300.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,6))) # Enough whole batches to cover the simulation time
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -258,7 +258,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/ODE_solver.py b/ODE_solver.py
index 7198dfc..bf2ea11 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -226,7 +226,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     # batch_step=100.0 # seconds
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,6))) # Enough whole batches to cover the simulation time
 
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -236,7 +236,7 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
 
     #pdb.set_trace()
 
-    while total_time < simulation_time:
+    while time_step < number_steps:
 
         if total_time == 0.0:
             #Define an Assimulo problem
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 560535f..4a09d37 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -172,7 +172,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     #batch_step=100.0
     t_array=[]
     time_step=0
-    number_steps=int(simulation_time/batch_step) # Just cycling through 3 steps to get to a solution
+    number_steps=int(numpy.ceil(round(simulation_time/batch_step,6))) # Enough whole batches to cover the simulation time
     
     # Define a matrix that stores values as outputs from the end of each batch step. Again, you can remove
     # the need to run in batches. You can tell the Assimulo solvers the frequency of outputs.
@@ -181,7 +181,7 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
     print("Starting simulation")
 
     # In the following, we can 
-    while total_time < simulation_time:
+    while time_step < number_steps:
         
         if total_time == 0.0:
             #Define an Assimulo problem
-- 
2.43.0


From 54d2087b215952807fae6e196288f1093b220a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 16/27] fix: close the file with the species names, so that a
 failed write is reported

---
 ODE_solver.py      | 7 ++++---
 f2py/ODE_solver.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ODE_solver.py b/ODE_solver.py
index bf2ea11..e655065 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -283,9 +283,10 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         numpy.save(filename+'_output', y_matrix)
         df = pd.DataFrame(y_matrix)
         df.to_csv(filename+"_output_matrix.csv")
-        w = csv.writer(open(filename+"_output_names.csv", "w"))
-        for specie, number in species_dict2array.items():
-            w.writerow([specie, number])
+        with open(filename+"_output_names.csv", "w") as handle:
+            w = csv.writer(handle)
+            for specie, number in species_dict2array.items():
+                w.writerow([specie, number])
 
     with_plots=False
 
diff --git a/f2py/ODE_solver.py b/f2py/ODE_solver.py
index 4a09d37..ef0638d 100644
--- a/f2py/ODE_solver.py
+++ b/f2py/ODE_solver.py
@@ -226,9 +226,10 @@ def run_simulation(filename, start_time, save_output, temp, RH, RO2_indices, H2O
         numpy.save(filename+'_output', y_matrix)
         df = pd.DataFrame(y_matrix)
         df.to_csv(filename+"_output_matrix.csv")
-        w = csv.writer(open(filename+"_output_names.csv", "w"))
-        for specie, number in species_dict2array.items():
-            w.writerow([specie, number])
+        with open(filename+"_output_names.csv", "w") as handle:
+            w = csv.writer(handle)
+            for specie, number in species_dict2array.items():
+                w.writerow([specie, number])
         
     with_plots=True
     
-- 
2.43.0


From 4da7d79590739fccf6694c1ce537db13af5ba22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 17/27] fix: record particle mass and size at the end of each
 batch, not at the last trial step

---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 2 ++
 Aerosol/f2py/ODE_solver.py                        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index 7a6698d..add2a93 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -250,6 +250,8 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
         exp_sim.maxncf = 1000
         #Sets the parameters        
         t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds
+        # The last call made by the solver need not be at the accepted solution, so evaluate mass and size there
+        dydt_func(t_output[-1],y_output[-1,:])
         total_time+=batch_step
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
diff --git a/Aerosol/f2py/ODE_solver.py b/Aerosol/f2py/ODE_solver.py
index f7e3e65..46a6ffe 100644
--- a/Aerosol/f2py/ODE_solver.py
+++ b/Aerosol/f2py/ODE_solver.py
@@ -290,6 +290,8 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
         exp_sim.maxncf = 1000
         #Sets the parameters        
         t_output, y_output = exp_sim.simulate(batch_step) #Simulate 'batch' seconds
+        # The last call made by the solver need not be at the accepted solution, so evaluate mass and size there
+        dydt_func(t_output[-1],y_output[-1,:])
         total_time+=batch_step
         t_array.append(total_time) # Save the output from the end step, of the current batch, to a matrix
         y_matrix[time_step,:]=y_output[-1,:]
-- 
2.43.0


From a5f2ac4362dcb930c6698cf3ccd1494f5fac79ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 18/27] fix: remove the compiled Numba modules before
 generating new ones

---
 Gas_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Gas_simulation.py b/Gas_simulation.py
index 8133d72..dc390a1 100644
--- a/Gas_simulation.py
+++ b/Gas_simulation.py
@@ -101,7 +101,7 @@ if __name__=='__main__':
         if os.path.isdir("__pycache__"):
             my_dir = '__pycache__' # enter the dir name
             for fname in os.listdir(my_dir):
-                if "_numba_" in fname:
+                if "_numba" in fname:
                     os.remove(os.path.join(my_dir, fname))
         for fname in os.listdir('.'):
             if ".npy" in fname:
-- 
2.43.0


From 51f3ba7b1e059deb73d4254b7124235b692d84da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 19/27] fix: import the generated Numba modules anew for every
 simulation

---
 ODE_solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ODE_solver.py b/ODE_solver.py
index e655065..83031c1 100644
--- a/ODE_solver.py
+++ b/ODE_solver.py
@@ -43,6 +43,8 @@ import pdb
 from scipy.sparse import csr_matrix
 from timeit import default_timer as timer
 import csv
+import sys
+import importlib
 import pandas as pd
 
 def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O, input_dict, simulation_time, batch_step):
@@ -176,6 +178,10 @@ def run_simulation(filename, save_output, start_time, temp, RH, RO2_indices, H2O
     #-------------------------------------------------------------------------------------
 
     print("Importing Numba modules [compiling if first import or clean build...please be patient]")
+    # These files may have been written again since an earlier simulation in this session
+    importlib.invalidate_caches()
+    for module in ['Rate_coefficients_numba','Reactants_conc_numba','Loss_Gain_numba','Jacobian_numba']:
+        sys.modules.pop(module,None)
     #import Numba functions for use in ODE solver
     from Rate_coefficients_numba import evaluate_rates
     from Reactants_conc_numba import reactants as reactant_product
-- 
2.43.0


From a6cb93465fe036546d695d4818a3dc7e6b7a8e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 20/27] fix: load only the files that an earlier aerosol run
 has saved

---
 Aerosol/f2py/Aerosol_simulation_f2py.py             | 2 ++
 Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py | 2 --
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index a39b786..d6583f5 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -208,6 +208,8 @@ if __name__=='__main__':
         #    pickle.dump(property_dict1, handle, protocol=pickle.HIGHEST_PROTOCOL)
         #with open(filename+'_property_dict2.pickle', 'wb') as handle:
         #    pickle.dump(property_dict2, handle, protocol=pickle.HIGHEST_PROTOCOL)
+        with open(filename+'_equations.pickle', 'wb') as handle:
+            pickle.dump(equations, handle, protocol=pickle.HIGHEST_PROTOCOL)
         with open(filename+'_num_species_gas.pickle', 'wb') as handle:
             pickle.dump(num_species, handle, protocol=pickle.HIGHEST_PROTOCOL)
         
diff --git a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
index f682fa5..6d754dd 100644
--- a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
+++ b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
@@ -210,8 +210,6 @@ if __name__=='__main__':
             species_dict2array = pickle.load(f) 
         with open(filename+'_species_dict.pickle', 'rb') as f:
             species_dict = pickle.load(f) 
-        with open(filename+'_equations.pickle', 'rb') as f:
-            equations = pickle.load(f) 
         with open(filename+'_Pybel_object_dict.pickle', 'rb') as f:
             Pybel_object_dict= pickle.load(f) 
         with open(filename+'_SMILES_dict.pickle', 'rb') as f:
-- 
2.43.0


From 9e35d130faf7913b080996fb830867e0d5343b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 21/27] fix: stop when f2py fails instead of running with
 modules left by an earlier mechanism

---
 Aerosol/f2py/Aerosol_simulation_f2py.py             | 12 ++++++++----
 Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py |  3 ++-
 f2py/Gas_simulation_f2py.py                         | 12 ++++++++----
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index d6583f5..c998219 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -230,21 +230,24 @@ if __name__=='__main__':
         print("Compiling rate coefficient file using f2py")
         #Parse_eqn_file.write_rate_file(filename,rate_dict,mcm_constants_dict)
         #os.system("python f2py_rate_coefficient.py build_ext --inplace --fcompiler=gfortran")
-        os.system('f2py -c -m rate_coeff_f2py Rate_coefficients.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp')
+        if os.system('f2py -c -m rate_coeff_f2py Rate_coefficients.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp') != 0:
+            raise RuntimeError('f2py could not compile rate_coeff_f2py')
         
         # Create Fortran file for calculating prodcts all of reactants for all reactions
         print("Creating Fortran file to calculate reactant contribution to equation")
         Parse_eqn_file.write_reactants_indices_fortran(filename,equations,species_dict2array,rate_dict_reactants,loss_dict,openMP)
         print("Compiling reactant product file using f2py")
         #os.system("python f2py_reactant_conc.py build_ext --inplace --fcompiler=gfortran")
-        os.system('f2py -c -m reactants_conc_f2py Reactants_conc.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp')
+        if os.system('f2py -c -m reactants_conc_f2py Reactants_conc.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp') != 0:
+            raise RuntimeError('f2py could not compile reactants_conc_f2py')
         
         # Create Fortran file for calculating dy_dt
         print("Creating Fortran file to calculate dy_dt for each reaction")
         Parse_eqn_file.write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,species_dict2array,openMP)
         print("Compiling dydt file using f2py")
         #os.system("python f2py_loss_gain.py build_ext --inplace --fcompiler=gfortran")
-        os.system('f2py -c -m loss_gain_f2py Loss_Gain.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp')
+        if os.system('f2py -c -m loss_gain_f2py Loss_Gain.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp') != 0:
+            raise RuntimeError('f2py could not compile loss_gain_f2py')
                 
         # Create .npy file with indices for all RO2 species
         print("Creating file that holds RO2 species indices")
@@ -425,7 +428,8 @@ if __name__=='__main__':
         Parse_eqn_file.write_partitioning_section_fortran_ignore(num_species+num_species_condensed*num_bins,num_bins,num_species,num_species_condensed,include_index)
         print("Compiling gas-to-particle partitioning file using f2py")
         #os.system("python f2py_partition.py build_ext --inplace --fcompiler=gfortran")    
-        os.system('f2py -c -m partition_f2py Partitioning.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp')
+        if os.system('f2py -c -m partition_f2py Partitioning.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp') != 0:
+            raise RuntimeError('f2py could not compile partition_f2py')
 
     #-------------------------------------------------------------------------------------
     # 10) Save this information to a dictionary to pass to ODE solver
diff --git a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
index 6d754dd..7f4cdc3 100644
--- a/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
+++ b/Aerosol/f2py/Fixed_yield/Aerosol_sim_fixed_yield.py
@@ -374,7 +374,8 @@ if __name__=='__main__':
         Parse_eqn_file.write_partitioning_section_fortran_ignore(num_species+num_species_condensed*num_bins,num_bins,num_species,num_species_condensed,include_index)
         print("Compiling gas-to-particle partitioning file using f2py")
         #os.system("python f2py_partition.py build_ext --inplace --fcompiler=gfortran")    
-        os.system('f2py -c -m partition_f2py Partitioning.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp')
+        if os.system('f2py -c -m partition_f2py Partitioning.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp') != 0:
+            raise RuntimeError('f2py could not compile partition_f2py')
 
     #-------------------------------------------------------------------------------------
     # 10) Save this information to a dictionary to pass to ODE solver
diff --git a/f2py/Gas_simulation_f2py.py b/f2py/Gas_simulation_f2py.py
index f0f80ef..1724ecb 100644
--- a/f2py/Gas_simulation_f2py.py
+++ b/f2py/Gas_simulation_f2py.py
@@ -156,21 +156,24 @@ if __name__=='__main__':
         print("Compiling rate coefficient file using f2py")
         #Parse_eqn_file.write_rate_file(filename,rate_dict,mcm_constants_dict)
         #os.system("python f2py_rate_coefficient.py build_ext --inplace --fcompiler=gfortran")
-        os.system('f2py -c -m rate_coeff_f2py Rate_coefficients.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp')
+        if os.system('f2py -c -m rate_coeff_f2py Rate_coefficients.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp') != 0:
+            raise RuntimeError('f2py could not compile rate_coeff_f2py')
         
         # Create Fortran file for calculating prodcts all of reactants for all reactions
         print("Creating Fortran file to calculate reactant contribution to equation")
         Parse_eqn_file.write_reactants_indices_fortran(filename,equations,species_dict2array,rate_dict_reactants,loss_dict,openMP)
         print("Compiling reactant product file using f2py")
         #os.system("python f2py_reactant_conc.py build_ext --inplace --fcompiler=gfortran")
-        os.system('f2py -c -m reactants_conc_f2py Reactants_conc.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp')
+        if os.system('f2py -c -m reactants_conc_f2py Reactants_conc.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp') != 0:
+            raise RuntimeError('f2py could not compile reactants_conc_f2py')
         
         # Create Fortran file for calculating dy_dt
         print("Creating Fortran file to calculate dy_dt for each reaction")
         Parse_eqn_file.write_loss_gain_fortran(filename,equations,num_species,loss_dict,gain_dict,species_dict2array,openMP)
         print("Compiling dydt file using f2py")
         #os.system("python f2py_loss_gain.py build_ext --inplace --fcompiler=gfortran")
-        os.system('f2py -c -m loss_gain_f2py Loss_Gain.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp')
+        if os.system('f2py -c -m loss_gain_f2py Loss_Gain.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp') != 0:
+            raise RuntimeError('f2py could not compile loss_gain_f2py')
 
         # Create .npy file with indices for all RO2 species
         print("Creating file that holds RO2 species indices")
@@ -180,7 +183,8 @@ if __name__=='__main__':
         Parse_eqn_file.write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dict,species_dict2array,rate_dict_reactants,openMP)
         print("Compiling jacobian function using f2py")      
         #os.system("python f2py_jacobian.py build_ext --inplace --fcompiler=gfortran")
-        os.system('f2py -c -m jacobian_f2py Jacobian.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp')
+        if os.system('f2py -c -m jacobian_f2py Jacobian.f90 --f90flags="-O3 -ffast-math -fopenmp" -lgomp') != 0:
+            raise RuntimeError('f2py could not compile jacobian_f2py')
 
     else:
         
-- 
2.43.0


From 1e7baea40a7931ce9be5bfa03b458efd031dd9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 22/27] fix: save RO2 indices as integers when a mechanism has
 no RO2 species

---
 Parse_eqn_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 9eb2dd8..cdeee21 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2120,7 +2120,7 @@ def write_RO2_indices(filename,species_dict2array):
         if name in species_dict2array:
             RO2_indices.append(species_dict2array[name])
             
-    np.save(filename+'_RO2_indices', RO2_indices)
+    np.save(filename+'_RO2_indices', np.array(RO2_indices,dtype=int))
     	
 def write_reactants_indices(filename,equations,num_species,species_dict2array,rate_dict_reactants,loss_dict):
 
-- 
2.43.0


From 7ba8636af1778c37bd815e67d41b98b048c6e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:56 +0000
Subject: [PATCH 23/27] fix: skip species without a SMILES entry instead of
 giving them the one before

---
 Parse_eqn_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index cdeee21..415d0d1 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -338,6 +338,7 @@ def extract_smiles_species(output_dict, SMILES_filename):
                     species_SMILES=re.search(r'<smiles>(.*?)</smiles>',node.getElementsByTagName('smiles').item(0).toxml()).group(1)
                 except:
                     print('No SMILES entry for species ',species_name)
+                    continue
                 SMILES_dict[species_name]=species_SMILES
                 Pybel_object=pybel.readstring('smi',species_SMILES)
                 Pybel_object_dict[species_SMILES]=Pybel_object
-- 
2.43.0


From 3474845c60525aba986d8fe76592be953db1ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 24/27] fix: write the Jacobian in the order of the mechanism,
 not of the hash seed

---
 Parse_eqn_file.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 415d0d1..429dc28 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2750,7 +2750,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                 for equation in equations_list_loss:
                     reactants_list_loss=reactants_list_loss+[reactant for step, reactant in rate_dict_reactants[equation].items()]
                 # Now turn this into a unique list
-                reactants_list_loss=set(reactants_list_loss)
+                reactants_list_loss=dict.fromkeys(reactants_list_loss)
                 reactants_list_loss=list(reactants_list_loss)
             
             if species in gain_dict.keys():
@@ -2760,12 +2760,12 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                 for equation in equations_list_gain:
                     reactants_list_gain=reactants_list_gain+[reactant for step, reactant in rate_dict_reactants[equation].items()]
                 # Now turn this into a unique list
-                reactants_list_gain=set(reactants_list_gain)
+                reactants_list_gain=dict.fromkeys(reactants_list_gain)
                 reactants_list_gain=list(reactants_list_gain)
             
             # Now combine these two lists and again merge into a unique one
             final_list=reactants_list_loss+reactants_list_gain
-            final_list=set(final_list)
+            final_list=dict.fromkeys(final_list)
             final_list=list(final_list)
             
             # Now cycle through each of these species to calculate dy_dt_dx
@@ -2780,7 +2780,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                 if len(equations_list_loss) > 0:
                     for equation in equations_list_loss:
                         reactants_list_loss_temp=[reactant for step, reactant in rate_dict_reactants[equation].items()]
-                        reactants_list_loss_temp=list(set(reactants_list_loss_temp))
+                        reactants_list_loss_temp=list(dict.fromkeys(reactants_list_loss_temp))
                         # Check if 'otherspecie' is in this reaction
                         if reactant in reactants_list_loss_temp:
                             if equation_flag > 2: # this is just to ensure line length isnt a problem for Fortran compiler
@@ -2793,7 +2793,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                             # if our specie only has a stoich of 1 we dont need to consider it in the proceeding calculations
                             if stoich_first==1:
                                 temp_list=[reactant2 for reactant_step, reactant2 in rate_dict_reactants[equation].items()]
-                                for reactant2 in list(set(temp_list)):
+                                for reactant2 in list(dict.fromkeys(temp_list)):
                                 
                                     if reactant2 not in ['hv'] and reactant2 != reactant:
                                         stoich=loss_dict[reactant2][equation]
@@ -2812,7 +2812,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                             else: # If our specie has a stoich of > 1 we need to include it in the expression
                                 #f.write('-%s*'%(stoich_first))
                                 temp_list=[reactant2 for reactant_step, reactant2 in rate_dict_reactants[equation].items()]
-                                for reactant2 in list(set(temp_list)):
+                                for reactant2 in list(dict.fromkeys(temp_list)):
                                     #step=1
                                     if reactant2 not in ['hv']:
                                         if reactant2 == reactant:
@@ -2857,7 +2857,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                 if len(equations_list_gain) > 0:
                     for equation in equations_list_gain:
                         reactants_list_gain_temp=[reactant for step, reactant in rate_dict_reactants[equation].items()]
-                        reactants_list_gain_temp=list(set(reactants_list_gain_temp))
+                        reactants_list_gain_temp=list(dict.fromkeys(reactants_list_gain_temp))
                         if reactant in reactants_list_gain_temp:
                             if equation_flag > 2: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
@@ -2872,7 +2872,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                             step=1
                             if stoich_first==1:
                                 temp_list=[reactant2 for reactant_step, reactant2 in rate_dict_reactants[equation].items()]
-                                for reactant2 in list(set(temp_list)):
+                                for reactant2 in list(dict.fromkeys(temp_list)):
                                     #step=1
                                     if reactant2 not in ['hv'] and reactant2 != reactant:
                                         stoich=loss_dict[reactant2][equation]
@@ -2891,7 +2891,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                             else:
                                 #f.write('-%s*'%(stoich_first))
                                 temp_list=[reactant2 for reactant_step, reactant2 in rate_dict_reactants[equation].items()]
-                                for reactant2 in list(set(temp_list)):
+                                for reactant2 in list(dict.fromkeys(temp_list)):
                                     #step=1
                                     if reactant2 not in ['hv']:
                                         if reactant2 == reactant:
@@ -3018,7 +3018,7 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                 for equation in equations_list_loss:
                     reactants_list_loss=reactants_list_loss+[reactant for step, reactant in rate_dict_reactants[equation].items()]
                 # Now turn this into a unique list
-                reactants_list_loss=set(reactants_list_loss)
+                reactants_list_loss=dict.fromkeys(reactants_list_loss)
                 reactants_list_loss=list(reactants_list_loss)
             
             if species in gain_dict.keys():
@@ -3028,12 +3028,12 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                 for equation in equations_list_gain:
                     reactants_list_gain=reactants_list_gain+[reactant for step, reactant in rate_dict_reactants[equation].items()]
                 # Now turn this into a unique list
-                reactants_list_gain=set(reactants_list_gain)
+                reactants_list_gain=dict.fromkeys(reactants_list_gain)
                 reactants_list_gain=list(reactants_list_gain)
             
             # Now combine these two lists and again merge into a unique one
             final_list=reactants_list_loss+reactants_list_gain
-            final_list=set(final_list)
+            final_list=dict.fromkeys(final_list)
             final_list=list(final_list)
             
             # Now cycle through each of these species to calculate dy_dt_dx
@@ -3048,7 +3048,7 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                 if len(equations_list_loss) > 0:
                     for equation in equations_list_loss:
                         reactants_list_loss_temp=[reactant for step, reactant in rate_dict_reactants[equation].items()]
-                        reactants_list_loss_temp=list(set(reactants_list_loss_temp))
+                        reactants_list_loss_temp=list(dict.fromkeys(reactants_list_loss_temp))
                         # Check if 'otherspecie' is in this reaction
                         if reactant in reactants_list_loss_temp:
                             if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
@@ -3063,7 +3063,7 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                             # if our specie only has a stoich of 1 we dont need to consider it in the proceeding calculations
                             if stoich_first==1:
                                 temp_list=[reactant2 for reactant_step, reactant2 in rate_dict_reactants[equation].items()]
-                                for reactant2 in list(set(temp_list)):
+                                for reactant2 in list(dict.fromkeys(temp_list)):
                                 
                                     if reactant2 not in ['hv'] and reactant2 != reactant:
                                         stoich=loss_dict[reactant2][equation]
@@ -3082,7 +3082,7 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                             else: # If our specie has a stoich of > 1 we need to include it in the expression
                                 #f.write('-%s*'%(stoich_first))
                                 temp_list=[reactant2 for reactant_step, reactant2 in rate_dict_reactants[equation].items()]
-                                for reactant2 in list(set(temp_list)):
+                                for reactant2 in list(dict.fromkeys(temp_list)):
                                     #step=1
                                     if reactant2 not in ['hv']:
                                         if reactant2 == reactant:
@@ -3127,7 +3127,7 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                 if len(equations_list_gain) > 0:
                     for equation in equations_list_gain:
                         reactants_list_gain_temp=[reactant for step, reactant in rate_dict_reactants[equation].items()]
-                        reactants_list_gain_temp=list(set(reactants_list_gain_temp))
+                        reactants_list_gain_temp=list(dict.fromkeys(reactants_list_gain_temp))
                         if reactant in reactants_list_gain_temp:
                             if equation_flag > 3: # this is just to ensure line length isnt a problem for Fortran compiler
                                 #f.write(' \\n')
@@ -3142,7 +3142,7 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                             step=1
                             if stoich_first==1:
                                 temp_list=[reactant2 for reactant_step, reactant2 in rate_dict_reactants[equation].items()]
-                                for reactant2 in list(set(temp_list)):
+                                for reactant2 in list(dict.fromkeys(temp_list)):
                                     #step=1
                                     if reactant2 not in ['hv'] and reactant2 != reactant:
                                         stoich=loss_dict[reactant2][equation]
@@ -3161,7 +3161,7 @@ def write_gas_jacobian_numba(filename,equations,num_species,loss_dict,gain_dict,
                             else:
                                 #f.write('-%s*'%(stoich_first))
                                 temp_list=[reactant2 for reactant_step, reactant2 in rate_dict_reactants[equation].items()]
-                                for reactant2 in list(set(temp_list)):
+                                for reactant2 in list(dict.fromkeys(temp_list)):
                                     #step=1
                                     if reactant2 not in ['hv']:
                                         if reactant2 == reactant:
-- 
2.43.0


From c278e6f647fbcd2442b199bb5fc15a6065ffd705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 25/27] fix: keep the lines of the Fortran Jacobian within the
 length a compiler accepts

---
 Parse_eqn_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Parse_eqn_file.py b/Parse_eqn_file.py
index 429dc28..94990db 100644
--- a/Parse_eqn_file.py
+++ b/Parse_eqn_file.py
@@ -2783,7 +2783,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_loss_temp=list(dict.fromkeys(reactants_list_loss_temp))
                         # Check if 'otherspecie' is in this reaction
                         if reactant in reactants_list_loss_temp:
-                            if equation_flag > 2: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 0: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
@@ -2859,7 +2859,7 @@ def write_gas_jacobian_fortran(filename,equations,num_species,loss_dict,gain_dic
                         reactants_list_gain_temp=[reactant for step, reactant in rate_dict_reactants[equation].items()]
                         reactants_list_gain_temp=list(dict.fromkeys(reactants_list_gain_temp))
                         if reactant in reactants_list_gain_temp:
-                            if equation_flag > 2: # this is just to ensure line length isnt a problem for Fortran compiler
+                            if equation_flag > 0: # this is just to ensure line length isnt a problem for Fortran compiler
                                 f.write(' & \n')
                                 f.write('    ')  
                                 equation_flag=0
-- 
2.43.0


From 2bcba442c320a9d4155b5dd612d325e4e1e9131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:59 +0000
Subject: [PATCH 26/27] fix: keep only the species with a structure in the
 property arrays when the vapour pressure cut-off is off

---
 Aerosol/f2py/Aerosol_simulation_f2py.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Aerosol/f2py/Aerosol_simulation_f2py.py b/Aerosol/f2py/Aerosol_simulation_f2py.py
index c998219..e9f83e3 100644
--- a/Aerosol/f2py/Aerosol_simulation_f2py.py
+++ b/Aerosol/f2py/Aerosol_simulation_f2py.py
@@ -297,12 +297,12 @@ if __name__=='__main__':
     ignore_index_fortran=property_dict1['ignore_index_fortran'] 
     include_index=sorted(property_dict1['include_index']) # This is an array that captures compounds to be included in the partitioning calculations
     #pdb.set_trace()
-    if ignore_vp is True: # Remove those comounds for which there is no vapour pressure data OR are too volatile 
-        y_density_array=numpy.array(y_density_array)[include_index].tolist()
-        y_mw=numpy.array(y_mw)[include_index].tolist()
-        sat_vp=numpy.array(sat_vp)[include_index].tolist()
-        Delta_H=numpy.array(Delta_H)[include_index].tolist()
-        Latent_heat_gas=numpy.array(Latent_heat_gas)[include_index].tolist()
+    # Remove those comounds for which there is no vapour pressure data OR, if ignore_vp is True, are too volatile
+    y_density_array=numpy.array(y_density_array)[include_index].tolist()
+    y_mw=numpy.array(y_mw)[include_index].tolist()
+    sat_vp=numpy.array(sat_vp)[include_index].tolist()
+    Delta_H=numpy.array(Delta_H)[include_index].tolist()
+    Latent_heat_gas=numpy.array(Latent_heat_gas)[include_index].tolist()
         
     
     sat_vap_water = numpy.exp((-0.58002206E4 / temp) + 0.13914993E1 - (0.48640239E-1 * temp) + (0.41764768E-4 * (temp**2.0E0))- (0.14452093E-7 * (temp**3.0E0)) + (0.65459673E1 * numpy.log(temp)))
-- 
2.43.0


From 53553f427571d09f7f72e3b4161fcf5f1301eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:14 +0000
Subject: [PATCH 27/27] fix: bar chart of the fixed-yield model with a vapour
 pressure cut-off

With ignore_vp the molar masses are already those of the condensing species, and the number of gas species differs from theirs:
the chart failed, or showed gas phase amounts.
---
 Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
index add2a93..8bd56dc 100644
--- a/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
+++ b/Aerosol/f2py/Fixed_yield/ODE_solver_fixedyield.py
@@ -298,7 +298,8 @@ def run_simulation(filename, save_output, start_time, temp, RH, H2O, PInit, y_co
     #In a future release I will add this as a seperate module
     if with_plots:
         try:
-            Plotting.stacked_bar(t_array,y_matrix,num_species_condensed,num_bins,numpy.array(y_mw[include_index]),NA)
+            # The columns that stacked_bar skips have to be as many as there are condensing species. y_mw holds those only
+            Plotting.stacked_bar(t_array,y_matrix[:,num_species-num_species_condensed:],num_species_condensed,num_bins,numpy.array(y_mw),NA)
         except:
             print("There is a problem using Matplotlib in your environment. If using this within a docker container, you will need to transfer the data to the host or configure your container to enable graphical displays. More information can be found at http://wiki.ros.org/docker/Tutorials/GUI ")
         
\ No newline at end of file
-- 
2.43.0

