From 9dcd5d7336893278343747813ec09d4b63138ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 01/53] fix: treat a DLML cache file that is not a JSON object
 or not text as empty

---
 pelicun/tools/dlml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 013b228..4bbc8c7 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -232,10 +232,12 @@ def load_cache(cache_file: Union[str, Path]) -> Dict[str, Any]:  # noqa: UP007,
     if path.exists():
         try:
             with path.open('r') as f:
-                return json.load(f)
-        except (OSError, json.JSONDecodeError):
+                cache_data = json.load(f)
+        except (OSError, ValueError):
             # If the cache file is corrupted, return an empty cache
             return {}
+        # Anything but a JSON object is also a corrupted cache
+        return cache_data if isinstance(cache_data, dict) else {}
     return {}
 
 
-- 
2.43.0


From 7b1d59752221b97248f05bf0365e65c4e1468992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 02/53] fix: a failing DLML version check does not prevent
 importing pelicun

---
 pelicun/tools/dlml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 4bbc8c7..0b72472 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -361,7 +361,8 @@ def check_dlml_version() -> Dict[str, Union[bool, str, None]]:  # noqa: UP007, U
 
     except requests.exceptions.RequestException as e:
         result['error'] = f'Failed to check for updates: {e}'
-    except (ValueError, TypeError, KeyError, json.JSONDecodeError) as e:
+    except (ValueError, TypeError, KeyError, AttributeError) as e:
+        # AttributeError: the response or the cache is not what we expect
         result['error'] = f'Version check error: {e}'
 
     # Update cache with version check results
@@ -807,10 +808,11 @@ def check_dlml_data() -> None:
 
         except (
             requests.exceptions.RequestException,
+            OSError,
             ValueError,
             TypeError,
             KeyError,
-            json.JSONDecodeError,
+            AttributeError,
         ) as e:
             # Version check failed, but don't prevent import
             print(f'Version check failed: {e}')  # noqa: T201
-- 
2.43.0


From c9e5da2b309e42e1f186256affbe59ff22a7f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 03/53] fix: do not rely on an incomplete GitHub comparison to
 skip DLML files

---
 pelicun/tools/dlml.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 0b72472..f55f921 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -183,7 +183,8 @@ def _get_changed_files(
     Returns
     -------
     set[str] | None
-        A set of changed filenames, or None if the API call fails.
+        A set of changed filenames, or None if the API call fails or does not
+        provide the complete set of changes.
     """
     compare_url = f'{get_api_repo_url()}/compare/{base_commit}...{head_commit}'
 
@@ -206,9 +207,27 @@ def _get_changed_files(
             response.raise_for_status()
             compare_data = response.json()
 
-        return {file_info['filename'] for file_info in compare_data.get('files', [])}
+        changed = {
+            file_info['filename'] for file_info in compare_data.get('files', [])
+        }
 
-    except requests.exceptions.RequestException as e:
+        # The comparison starts from the merge base of the two commits and lists
+        # no more than 300 files. When the commits have diverged or that limit is
+        # reached, some of the changes are not included.
+        if compare_data.get('status') == 'diverged' or len(changed) >= 300:  # noqa: PLR2004
+            logger.warning('The commit comparison from GitHub API is incomplete.')
+            logger.warning('Will proceed by re-downloading all necessary files.')
+            return None
+
+        return changed
+
+    except (
+        requests.exceptions.RequestException,
+        ValueError,
+        TypeError,
+        KeyError,
+        AttributeError,
+    ) as e:
         logger.warning(f'Could not get commit comparison from GitHub API: {e}')
         logger.warning('Will proceed by re-downloading all necessary files.')
         return None
-- 
2.43.0


From 214bdbc45b1c5c754e27315f9dcb4b9c8eb4c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:49 +0000
Subject: [PATCH 04/53] fix: quote DLML file names in download URLs

---
 pelicun/tools/dlml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index f55f921..b5b007b 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -52,6 +52,7 @@ import warnings
 from datetime import datetime, timedelta
 from pathlib import Path
 from typing import Any, Dict, Optional, Union
+from urllib.parse import quote
 
 import requests
 from packaging import version
@@ -711,7 +712,7 @@ def download_data_files(  # noqa: C901
 
             # Download the file if it's not in cache
             pbar.set_description(f'Downloading {local_path.name}')
-            remote_url = f'{file_download_base_url}/{file_path}'
+            remote_url = f'{file_download_base_url}/{quote(file_path)}'
             _download_file(remote_url, str(local_path))
 
             if use_cache:
-- 
2.43.0


From b650ad65f1cfefdb2cd447b073efd2b9f0b9829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 05/53] fix: a DLML update restores the data when the files
 were removed

---
 pelicun/tools/dlml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index b5b007b..cbaf566 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -615,12 +615,14 @@ def download_data_files(  # noqa: C901
         msg = f'Failed to determine download version: {e}'
         raise RuntimeError(msg) from e
 
+    model_file_local_path = target_data_abs_dir / 'model_files.txt'
+
     changed_files = None
     if use_cache:
         old_commit_sha = cache_data.get('commit_sha')
 
         # Check if we already have the latest data
-        if old_commit_sha == commit_sha:
+        if old_commit_sha == commit_sha and model_file_local_path.exists():
             logger.info(f'Already have the latest data for commit {commit_sha[:7]}.')
             return
 
@@ -634,7 +636,6 @@ def download_data_files(  # noqa: C901
     # Get the model file list
     model_file_list_url = f'{get_raw_repo_url()}/{commit_sha}/model_files.txt'
 
-    model_file_local_path = target_data_abs_dir / 'model_files.txt'
     _download_file(model_file_list_url, str(model_file_local_path))
 
     logger.info('Successfully downloaded model file list.')
-- 
2.43.0


From b20cd25d09d3daec50915d889560f95156ec9adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 06/53] fix: an incomplete first DLML download is not taken for
 an installation

---
 pelicun/tools/dlml.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index cbaf566..bb5a6f9 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -636,24 +636,30 @@ def download_data_files(  # noqa: C901
     # Get the model file list
     model_file_list_url = f'{get_raw_repo_url()}/{commit_sha}/model_files.txt'
 
-    _download_file(model_file_list_url, str(model_file_local_path))
+    # The model file list in the data directory marks an available installation.
+    # Use a temporary name until all the files in the list are downloaded.
+    temp_file_list_path = target_data_abs_dir / '.model_files.txt.tmp'
+    _download_file(model_file_list_url, str(temp_file_list_path))
 
     logger.info('Successfully downloaded model file list.')
 
     # Read the model list and download model files
     try:
-        with model_file_local_path.open('r') as f:
-            files_to_download = [
-                line.strip()
-                for line in f
-                if line.strip() and not line.startswith('#')
-            ]
+        with temp_file_list_path.open('r', newline='') as f:
+            model_file_list = f.readlines()
     except FileNotFoundError as e:
-        msg = f'Model file list not found at {model_file_local_path}'
+        msg = f'Model file list not found at {temp_file_list_path}'
         raise RuntimeError(msg) from e
     except Exception as e:
         msg = f'Error reading model file list: {e}'
         raise RuntimeError(msg) from e
+    temp_file_list_path.unlink(missing_ok=True)
+
+    files_to_download = [
+        line.strip()
+        for line in model_file_list
+        if line.strip() and not line.startswith('#')
+    ]
 
     if changed_files is not None:
         relevant_changed_files = {
@@ -721,6 +727,10 @@ def download_data_files(  # noqa: C901
 
             pbar.update(1)
 
+    # All files are available, save the model file list
+    with model_file_local_path.open('w', newline='') as f:
+        f.writelines(model_file_list)
+
     # Save the new cache
     if use_cache:
         save_cache(str(cache_file), new_cache)
-- 
2.43.0


From c49c528e91f9a02983752c79f3d0833fc7a54ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 07/53] fix: an interrupted DLML update does not leave an
 outdated cache behind

---
 pelicun/tools/dlml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index bb5a6f9..18ebece 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -686,6 +686,11 @@ def download_data_files(  # noqa: C901
     total_files = len(files_to_download)
     logger.info(f'Checking {total_files} files for updates.')
 
+    # The cache describes the files that are about to change. Clear it so that
+    # an interrupted update is not mistaken for the version in the cache.
+    if cache_file.exists():
+        save_cache(str(cache_file), {})
+
     # Download files with progress reporting using tqdm
     skipped_count = 0
 
-- 
2.43.0


From a31ddd9f1869bcb5ad01085fe297c82cb0711858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 08/53] fix: a DLML update that bypasses the cache replaces an
 existing cache

---
 pelicun/tools/dlml.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 18ebece..b80676a 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -669,8 +669,10 @@ def download_data_files(  # noqa: C901
 
     file_download_base_url = f'{get_raw_repo_url()}/{commit_sha}'
 
-    # Initialize cache for this commit if using caching
-    if use_cache:
+    # Initialize cache for this commit if using caching, or if there is a cache
+    # that needs to be replaced
+    update_cache = use_cache or cache_file.exists()
+    if update_cache:
         # Keep track of files that should exist
         new_cache = {
             'commit_sha': commit_sha,
@@ -727,7 +729,7 @@ def download_data_files(  # noqa: C901
             remote_url = f'{file_download_base_url}/{quote(file_path)}'
             _download_file(remote_url, str(local_path))
 
-            if use_cache:
+            if update_cache:
                 new_cache['files'][file_path] = get_file_hash(str(local_path))
 
             pbar.update(1)
@@ -737,7 +739,7 @@ def download_data_files(  # noqa: C901
         f.writelines(model_file_list)
 
     # Save the new cache
-    if use_cache:
+    if update_cache:
         save_cache(str(cache_file), new_cache)
 
     logger.info(
-- 
2.43.0


From 1a2a0747d6f75c3cab2abe2d01be66f20a9465a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 09/53] fix: do not record a branch name as the installed DLML
 commit

---
 pelicun/tools/dlml.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index b80676a..d970faa 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -675,7 +675,10 @@ def download_data_files(  # noqa: C901
     if update_cache:
         # Keep track of files that should exist
         new_cache = {
-            'commit_sha': commit_sha,
+            # A branch name does not identify the files
+            'commit_sha': commit_sha
+            if re.fullmatch(r'[0-9a-f]{7,40}', commit_sha, re.IGNORECASE)
+            else None,
             'last_updated': datetime.now().isoformat(),  # noqa: DTZ005
             'files': {},
         }
-- 
2.43.0


From 8ce234dfa0d4b7becb016a77301501186bbe3f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 10/53] fix: record the DLML version when its data is already
 available

---
 pelicun/tools/dlml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index d970faa..6c45cc9 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -624,6 +624,11 @@ def download_data_files(  # noqa: C901
         # Check if we already have the latest data
         if old_commit_sha == commit_sha and model_file_local_path.exists():
             logger.info(f'Already have the latest data for commit {commit_sha[:7]}.')
+            if cache_data.get('version') != cache_meta['version']:
+                # The same data is available under another version
+                cache_data.update(cache_meta)
+                cache_data.pop('last_version_check', None)
+                save_cache(str(cache_file), cache_data)
             return
 
         # Determine which files have changed if we are updating
-- 
2.43.0


From 67f3def289267d404c5373c191936df0b1a5f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 11/53] fix: a GitHub comparison without a file list does not
 mean no changes

---
 pelicun/tools/dlml.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pelicun/tools/dlml.py b/pelicun/tools/dlml.py
index 6c45cc9..970fc80 100644
--- a/pelicun/tools/dlml.py
+++ b/pelicun/tools/dlml.py
@@ -208,9 +208,7 @@ def _get_changed_files(
             response.raise_for_status()
             compare_data = response.json()
 
-        changed = {
-            file_info['filename'] for file_info in compare_data.get('files', [])
-        }
+        changed = {file_info['filename'] for file_info in compare_data['files']}
 
         # The comparison starts from the merge base of the two commits and lists
         # no more than 300 files. When the commits have diverged or that limit is
-- 
2.43.0


From 217b431dd4c0f9e0f2353152b88c9a5e306a7c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:22 +0000
Subject: [PATCH 12/53] fix: regional simulation handles buildings without any
 damage

---
 pelicun/tools/regional_sim.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 7c85eef..0278f64 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -305,6 +305,14 @@ def _calculate_losses_hazus_eq(
 
         assessment.loss.calculate()
 
+        if assessment.loss.sample is None:
+            # none of the buildings in this group are damaged
+            for dv_list in loss_results.values():
+                dv_list.append(
+                    pd.DataFrame(0.0, index=dmg_subset.index, columns=building_ids)
+                )
+            continue
+
         repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
 
         # aggregate across uid
@@ -337,7 +345,10 @@ def _calculate_losses_hazus_eq(
             grp_repair_dv.columns = grp_repair_dv.columns.astype(int)
 
             # we did not preserve the units for now; we can add them here if needed
-            loss_results[DV_type].append(grp_repair_dv.loc[:, building_ids])
+            # buildings that are not damaged in any realization have no losses
+            loss_results[DV_type].append(
+                grp_repair_dv.reindex(columns=building_ids, fill_value=0.0)
+            )
 
     repair_costs = pd.concat(loss_results['Cost'], axis=1).sort_index(axis=1).T
     repair_times = pd.concat(loss_results['Time'], axis=1).sort_index(axis=1).T
@@ -383,6 +394,16 @@ def _calculate_losses_general(
 
     assessment.loss.calculate()
 
+    damage_sample = assessment.damage.save_sample()
+    building_ids = damage_sample.columns.unique(level='loc').astype(int)
+
+    if assessment.loss.sample is None:
+        # none of the buildings are damaged
+        no_losses = pd.DataFrame(0.0, index=building_ids, columns=damage_sample.index)
+        return no_losses, (
+            no_losses.copy() if 'Time' in decision_variables else None
+        )
+
     repair_sample, repair_units = assessment.loss.save_sample(save_units=True)
 
     # aggregate across uid
@@ -412,14 +433,15 @@ def _calculate_losses_general(
     # - - - -
 
     # prepare the output
+    # buildings that are not damaged in any realization have no losses
     repair_costs = grp_repair['Cost']
     repair_costs.columns = repair_costs.columns.astype(int)
-    repair_costs = repair_costs.T
+    repair_costs = repair_costs.reindex(columns=building_ids, fill_value=0.0).T
 
     if 'Time' in decision_variables:
         repair_times = grp_repair['Time']
         repair_times.columns = repair_times.columns.astype(int)
-        repair_times = repair_times.T
+        repair_times = repair_times.reindex(columns=building_ids, fill_value=0.0).T
     else:
         repair_times = None
 
-- 
2.43.0


From 0a31fea9f32912e60fa5b73f456f2f288603384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:22 +0000
Subject: [PATCH 13/53] fix: regional simulation labels intensity measures
 listed in any order

---
 pelicun/tools/regional_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 0278f64..5728348 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -503,7 +503,8 @@ def process_buildings_chunk(
     # 3 Event-to-Building Mapping
     # Map event IMs to building centroids using the nearest neighbor method
 
-    im_list = list(im_types.keys())
+    # use the order of the features in the sorted grid data below
+    im_list = sorted(im_types.keys())
 
     grid_point_locations = grid_points[['Longitude', 'Latitude']].to_numpy()
 
-- 
2.43.0


From 804984065849d9552fe9eb39f49a0bc5c478a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:22 +0000
Subject: [PATCH 14/53] fix: regional simulation removes outdated repair times

---
 pelicun/tools/regional_sim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 5728348..75e18f7 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -1054,3 +1054,6 @@ def regional_sim(config_file: str, num_cores: int | None = None) -> None:  # noq
             repair_times = pd.concat(times_list, axis=0)
             repair_times = repair_times.reindex(original_index)
             repair_times.to_csv('repair_times.csv')
+        else:
+            # do not keep the repair times of an earlier simulation
+            Path('repair_times.csv').unlink(missing_ok=True)
-- 
2.43.0


From f29f8fa2996afce5b7f9c729410c8e431fe0fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:22 +0000
Subject: [PATCH 15/53] hook: PELICUN_DST_BATCH_SIZE sets the chunk size of the
 regional simulation (default unchanged)

---
 pelicun/tools/regional_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/tools/regional_sim.py b/pelicun/tools/regional_sim.py
index 75e18f7..9b660a5 100644
--- a/pelicun/tools/regional_sim.py
+++ b/pelicun/tools/regional_sim.py
@@ -844,7 +844,7 @@ def regional_sim(config_file: str, num_cores: int | None = None) -> None:  # noq
         - repair_time_sample.csv: Repair time estimates for all buildings
 
     """
-    batch_size = 1000
+    batch_size = int(os.environ.get('PELICUN_DST_BATCH_SIZE', '1000'))
 
     # Initialize start time for timestamp tracking
     start_time = time.time()
-- 
2.43.0


From 2d184d70172f9395491362c9db0fe8f21a42eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 16/53] fix: economies of scale per floor and across damage
 states

Losses could not be calculated with AcrossFloors false (the locations were
taken for damage states) and with AcrossDamageStates true when a damage state
with consequences did not occur in the sample.
---
 pelicun/model/loss_model.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 062fcab..4eff0a2 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1948,6 +1948,9 @@ class RepairModel_DS(RepairModel_Base):
         eco_group = dmg_quantities.T.groupby(level=eco_levels)
         eco_qnt = eco_group.sum().mask(eco_group.count() == 0, np.nan).T
         assert eco_qnt.columns.names == eco_columns
+        if eco_columns == ['cmp', 'loc', 'ds']:
+            eco_qnt = eco_qnt.reorder_levels(['cmp', 'ds', 'loc'], axis=1)
+            eco_qnt = eco_qnt.sort_index(axis=1)
 
         self.log.msg(
             'Successfully aggregated damage quantities.', prepend_timestamp=False
@@ -2008,6 +2011,12 @@ class RepairModel_DS(RepairModel_Base):
             ['cmp', 'ds', 'loc', 'dir', 'uid']
         )
         dmg_quantities = dmg_quantities.sort_index(axis=1)
+        dmg_ds = set(
+            zip(
+                dmg_quantities.columns.get_level_values('cmp'),
+                dmg_quantities.columns.get_level_values('ds'),
+            )
+        )
 
         if std_sample is not None:
             std_dvs = std_sample.columns.unique(level=0)
@@ -2039,6 +2048,10 @@ class RepairModel_DS(RepairModel_Base):
                     .loc[:, component]
                     .columns.unique(level=0)
                 ):
+                    # skip damage states that are not in the damage sample
+                    if (component, ds) not in dmg_ds:
+                        continue
+
                     loc_list = []
 
                     for loc_id, loc in enumerate(
@@ -2486,7 +2499,7 @@ class RepairModel_DS(RepairModel_Base):
                     result.columns = result.columns.droplevel('del')
 
                 # name the remaining column header levels
-                if eco_qnt.columns.names == ['cmp', 'ds', 'loc']:
+                if 'loc' in eco_qnt.columns.names:
                     result.columns.names = ['cmp', 'ds', 'loc']
                 else:
                     result.columns.names = ['cmp', 'ds']
-- 
2.43.0


From 258b94e5a32821c8c51e072ac0aa0335a01b17bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 17/53] fix: replacement consequences exclude other losses in
 the aggregate

The exclusion was applied to copies of the samples that the aggregation did not
use. Combining the samples no longer changes the columns of the lf_model sample.
---
 pelicun/model/loss_model.py | 40 +++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 4eff0a2..74e6540 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -119,31 +119,40 @@ class LossModel(PelicunModel):
             The combined loss sample.
 
         """
-        # Handle `None` cases
+        return self._combine_samples(self.ds_model.sample, self.lf_model.sample)
 
-        if self.ds_model.sample is None and self.lf_model.sample is None:
-            return None
+    @staticmethod
+    def _combine_samples(
+        ds_sample: pd.DataFrame | None, lf_sample: pd.DataFrame | None
+    ) -> pd.DataFrame | None:
+        """
+        Combine a sample of the ds_model with one of the lf_model.
+
+        Returns
+        -------
+        pd.DataFrame
+            The combined loss sample.
+
+        """
+        # Handle `None` cases
 
-        if self.ds_model.sample is None:
-            return self.lf_model.sample
+        if ds_sample is None:
+            return lf_sample
 
-        if self.lf_model.sample is None:
-            return self.ds_model.sample
+        if lf_sample is None:
+            return ds_sample
 
         # If both are not None, combine
 
-        ds_model_levels = self.ds_model.sample.columns.names
-
         # add a `ds` level to the lf_model sample
-        new_index = self.lf_model.sample.columns.to_frame(index=False)
+        new_index = lf_sample.columns.to_frame(index=False)
         # add
         new_index['ds'] = 'N/A'
         # reorder
-        new_index = new_index[ds_model_levels]
-        new_multiindex = pd.MultiIndex.from_frame(new_index)
-        self.lf_model.sample.columns = new_multiindex
+        new_index = new_index[ds_sample.columns.names]
+        lf_sample = lf_sample.set_axis(pd.MultiIndex.from_frame(new_index), axis=1)
 
-        return pd.concat((self.ds_model.sample, self.lf_model.sample), axis=1)
+        return pd.concat((ds_sample, lf_sample), axis=1)
 
     @property
     def loss_params(self) -> pd.DataFrame | None:
@@ -918,7 +927,8 @@ class LossModel(PelicunModel):
 
         # levels to preserve (this aggregates `ds` for the ds_model)
         column_levels = ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid']
-        combined_sample = self.sample
+        combined_sample = self._combine_samples(ds_sample, lf_sample)
+        assert combined_sample is not None
         sample = (
             combined_sample.T.groupby(level=column_levels).sum().T.sort_index(axis=1)
         )
-- 
2.43.0


From 76cc5c08a7792a8bf1563b8fe44596d1bc784d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 18/53] fix: redefined consequences are ignored as a whole

An undefined parameter of a consequence (e.g. no Family: no dispersion) was
filled in from a later, lower priority definition of the same consequence.
---
 pelicun/model/loss_model.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 74e6540..f37a9b2 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1664,11 +1664,7 @@ class RepairModel_Base(PelicunModel):
             data = pd.concat((self.loss_params, data), axis=0)
 
         # drop redefinitions of components
-        data = (
-            data.groupby(level=[0, 1]).first().transform(lambda x: x.fillna(np.nan))
-        )
-        # note: .groupby introduces None entries. We replace them with
-        # NaN for consistency.
+        data = data.groupby(level=[0, 1]).first(skipna=False)
 
         self.loss_params = data
 
-- 
2.43.0


From 071bcf7f75c8e3f3b83e125698fe737b83ea45b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 19/53] fix: damage process tasks run in the order of their
 numbers

Task 10 was performed before task 2.
---
 pelicun/model/damage_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index 73ccac9..c67c462 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -308,8 +308,14 @@ class DamageModel(PelicunModel):
         if dmg_process is not None:
             self.log.msg('Applying damage processes.')
 
-            # Sort the damage processes tasks
-            dmg_process = {key: dmg_process[key] for key in sorted(dmg_process)}
+            # Sort the damage processes tasks by the number they start with
+            def _task_order(key: str) -> tuple[float, str]:
+                number = key.split('_')[0]
+                return (int(number) if number.isdigit() else np.inf, key)
+
+            dmg_process = {
+                key: dmg_process[key] for key in sorted(dmg_process, key=_task_order)
+            }
 
             # Perform damage tasks in the sorted order
             for task in dmg_process.items():
-- 
2.43.0


From 73b9aa2b759c3e789019e4f6ca44a924431c95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 20/53] fix: DL_calculation removes earlier results in JSON
 format

---
 pelicun/tools/DL_calculation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 463c3c6..ddc27ff 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -120,6 +120,10 @@ known_output_files = [
     'DL_summary.csv',
     'DL_summary_stats.csv',
 ]
+# every result can also be requested in JSON format
+known_output_files += [
+    f'{Path(file_name).stem}.json' for file_name in known_output_files
+]
 
 full_out_config = {
     'Demand': {'Sample': True, 'Statistics': True},
-- 
2.43.0


From 6c3bc95d4fc15174f849c2873a929f499a2cb768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 21/53] fix: DL_calculation does not alter its default outputs

Removing outputs or adding settings in one calculation changed the defaults of
the later ones in the same process.
---
 pelicun/tools/DL_calculation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index ddc27ff..65c4df6 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -45,6 +45,7 @@ import argparse
 import json
 import os
 import sys
+from copy import deepcopy
 from pathlib import Path
 from time import gmtime, strftime
 from typing import Hashable
@@ -795,9 +796,9 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
         # if detailed results are not requested, add a lean output config
         if detailed_results is False:
-            update(config_ap, 'DL/Outputs', regional_out_config)
+            update(config_ap, 'DL/Outputs', deepcopy(regional_out_config))
         else:
-            update(config_ap, 'DL/Outputs', full_out_config)
+            update(config_ap, 'DL/Outputs', deepcopy(full_out_config))
             # add output settings from regional output config
             if is_unspecified(config_ap, 'DL/Outputs/Settings'):
                 update(config_ap, 'DL/Outputs/Settings', {})
@@ -837,7 +838,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # provide all outputs if the files are not specified
     if is_unspecified(config, 'DL/Outputs'):
-        update(config, 'DL/Outputs', full_out_config)
+        update(config, 'DL/Outputs', deepcopy(full_out_config))
 
     # provide outputs in CSV by default
     if is_unspecified(config, 'DL/Outputs/Format'):
@@ -857,7 +858,7 @@ def _parse_config_file(  # noqa: C901, PLR0912
 
     # add empty Settings to output config to simplify code below
     if is_unspecified(config, 'DL/Outputs/Settings'):
-        update(config, 'DL/Outputs/Settings', pbe_settings)
+        update(config, 'DL/Outputs/Settings', deepcopy(pbe_settings))
 
     if is_unspecified(config, 'DL/Demands'):
         msg = 'Demand configuration missing.'
-- 
2.43.0


From a3cd8025014af5770131f758cbd6c40a052f285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 22/53] fix: calculations without losses

DL_calculation failed when no component was damaged, when no damaged component
had consequences and when neither losses nor outputs were configured.
---
 pelicun/model/loss_model.py     | 17 ++++++++++++++++-
 pelicun/tools/DL_calculation.py | 21 ++++++++++++++-------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index f37a9b2..5a3cbb7 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -910,7 +910,14 @@ class LossModel(PelicunModel):
 
         if ds_sample is None and lf_sample is None:
             self.log.msg('There are no losses.')
-            return pd.DataFrame(0.00, index=[0], columns=_construct_columns())
+            damage_sample = self._asmnt.damage.ds_model.sample
+            sample_size = 1 if damage_sample is None else len(damage_sample)
+            df_agg = pd.DataFrame(
+                0.00, index=list(range(sample_size)), columns=_construct_columns()
+            )
+            if not future:
+                return df_agg
+            return df_agg, pd.DataFrame(index=df_agg.index, dtype=bool)
 
         #
         #  handle `replacement`, regardless of whether
@@ -2145,6 +2152,14 @@ class RepairModel_DS(RepairModel_Base):
                     for loss_cmp_i, dmg_cmp_i, ds, loc in cmp_list
                 ]
 
+        if not res_list:
+            self.sample = None
+            self.log.msg(
+                'There is no damage with consequences---DV sample is set to None.',
+                prepend_timestamp=False,
+            )
+            return
+
         lvl_names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
         dv_sample = pd.concat(res_list, axis=1, keys=key_list, names=lvl_names)
 
diff --git a/pelicun/tools/DL_calculation.py b/pelicun/tools/DL_calculation.py
index 65c4df6..b9e2101 100644
--- a/pelicun/tools/DL_calculation.py
+++ b/pelicun/tools/DL_calculation.py
@@ -839,6 +839,9 @@ def _parse_config_file(  # noqa: C901, PLR0912
     # provide all outputs if the files are not specified
     if is_unspecified(config, 'DL/Outputs'):
         update(config, 'DL/Outputs', deepcopy(full_out_config))
+        # without a loss simulation there are no losses to save
+        if is_unspecified(config, 'DL/Losses'):
+            update(config, 'DL/Outputs/Loss', {})
 
     # provide outputs in CSV by default
     if is_unspecified(config, 'DL/Outputs/Format'):
@@ -1440,12 +1443,18 @@ def _loss_save(  # noqa: C901
         Whether to aggregate colocated components. Default is False.
 
     """
-    out = assessment.loss.save_sample(save_units=True)
-    assert isinstance(out, tuple)
-    repair_sample, repair_units_series = out
-    repair_units = repair_units_series.to_frame().T
+    out_reqs = _parse_requested_output_file_names(output_config)
 
-    if aggregate_colocated:
+    if assessment.loss.sample is None:
+        # without losses there are only aggregate results to report
+        out_reqs &= {'AggregateSample', 'AggregateStatistics'}
+    else:
+        out = assessment.loss.save_sample(save_units=True)
+        assert isinstance(out, tuple)
+        repair_sample, repair_units_series = out
+        repair_units = repair_units_series.to_frame().T
+
+    if aggregate_colocated and assessment.loss.sample is not None:
         if 'ds' in repair_units.columns.names:
             uid_levels = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir']
         else:
@@ -1458,8 +1467,6 @@ def _loss_save(  # noqa: C901
             repair_groupby_uid.sum().mask(repair_groupby_uid.count() == 0, np.nan).T
         )
 
-    out_reqs = _parse_requested_output_file_names(output_config)
-
     if 'Sample' in out_reqs:
         repair_sample_s = repair_sample.copy()
         repair_sample_s = pd.concat([repair_sample_s, repair_units])
-- 
2.43.0


From 9c1e8850d088ffaf2362fdd147f00b6057279d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 23/53] fix: saving losses when a decision variable is absent
 for a component

save_sample looked up every pair of decision variable and consequence whose
parts both occur somewhere in the sample, and raised a KeyError for pairs
that do not occur together.
---
 pelicun/model/loss_model.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 5a3cbb7..5ef8f0a 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -750,11 +750,8 @@ class LossModel(PelicunModel):
             index=self.sample.columns, name='Units', dtype='object'
         ).sort_index()
 
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
-
         for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
+            if (dv_type, cmp_id) in dv_units.index:
                 dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
 
         res = file_io.save_to_csv(
@@ -1812,11 +1809,8 @@ class RepairModel_DS(RepairModel_Base):
             index=self.sample.columns, name='Units', dtype='object'
         ).sort_index()
 
-        valid_dv_types = dv_units.index.unique(level=0)
-        valid_cmp_ids = dv_units.index.unique(level=1)
-
         for cmp_id, dv_type in cmp_units.index:
-            if (dv_type in valid_dv_types) and (cmp_id in valid_cmp_ids):
+            if (dv_type, cmp_id) in dv_units.index:
                 dv_units.loc[dv_type, cmp_id] = cmp_units.loc[cmp_id, dv_type]
 
         res = file_io.save_to_csv(
-- 
2.43.0


From 722641c04bfbc489ff5a0296016ed6587bfe0ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 24/53] fix: cloned demands keep the level names that damage
 calculations need

---
 pelicun/model/demand_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index f100010..31fd588 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1118,9 +1118,12 @@ class DemandModel(PelicunModel):
                 column_index.extend([i] * len(new_column_values))
                 column_values.extend(new_column_values)
         # copy the columns
+        column_names = self.sample.columns.names
         self.sample = self.sample.iloc[:, column_index]
         # update the column index
-        self.sample.columns = pd.MultiIndex.from_tuples(column_values)
+        self.sample.columns = pd.MultiIndex.from_tuples(
+            column_values, names=column_names
+        )
         # update units
         self.user_units = self.user_units.iloc[column_index]  # type: ignore
         assert self.user_units is not None
-- 
2.43.0


From 0ef75c109f89dd0ae32800f4e23412715dc4d0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:20 +0000
Subject: [PATCH 25/53] fix: assessments do not alter the configuration of the
 user

---
 pelicun/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index 7a00ec0..b47ce12 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -43,6 +43,7 @@
 from __future__ import annotations
 
 import argparse
+import copy
 import json
 import pprint
 import sys
@@ -194,7 +195,10 @@ class Options:
         self.sampling_method: str | None = None
         self.list_all_ds: bool | None = None
 
-        merged_config_options = merge_default_config(user_config_options)
+        # work with a copy, so that the user's config stays as it is
+        merged_config_options = merge_default_config(
+            copy.deepcopy(user_config_options)
+        )
 
         self.seed = merged_config_options['Seed']
         self.sampling_method = merged_config_options['Sampling']['SamplingMethod']
-- 
2.43.0


From 775391f686ccaddb4ab947b248245714a6668735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 26/53] fix: the order of components in an extended loss map
 does not depend on hashing

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 5ef8f0a..cacdd26 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -250,7 +250,7 @@ class LossModel(PelicunModel):
             raise ValueError(msg)
 
         # get a list of unique component IDs
-        cmp_set = set(self._asmnt.asset.list_unique_component_ids())
+        components = self._asmnt.asset.list_unique_component_ids()
 
         if loss_map_path is not None:
             self.log.msg('Loss map is provided.', prepend_timestamp=False)
@@ -281,7 +281,7 @@ class LossModel(PelicunModel):
 
         if loss_map_policy in {'fill', 'fill_all'}:
             # Populate missing rows with cmp_id -> cmp_id
-            for component in cmp_set:
+            for component in components:
                 if component not in loss_map.index:
                     if loss_map_policy == 'fill' and component == 'excessiveRID':
                         continue
-- 
2.43.0


From 97966138e1a4161da26a0fcb30fde6ec39bb7de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 27/53] fix: replacement thresholds for decision variables
 without losses

---
 pelicun/model/loss_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index cacdd26..e52ce5c 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1421,6 +1421,9 @@ class LossModel(PelicunModel):
 
         sample_dvs = replacement_consequence_rv_reg.RV.keys()
         for sample_dv in sample_dvs:
+            if sample_dv not in sample.columns.get_level_values('dv'):
+                # there are no losses that could exceed a threshold
+                continue
             sub_sample = sample.loc[:, sample_dv]
             if 'replacement' in sub_sample.columns.get_level_values('loss'):
                 # If `replacement` already exists as a consequence,
-- 
2.43.0


From d7a1416968a140a75363940de426a92b6b4a5ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 28/53] fix: loss functions of components mapped to other
 consequences

---
 pelicun/model/loss_model.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index e52ce5c..57a9767 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2588,7 +2588,7 @@ class RepairModel_LF(RepairModel_Base):
         performance_group_dict = {}
         for (component, location, direction, uid), num_blocks in blocks.items():
             for decision_variable in self.decision_variables:
-                if (component, decision_variable) in self.missing:
+                if (loss_map[component], decision_variable) in self.missing:
                     continue
                 performance_group_dict[
                     (component, decision_variable), location, direction, uid
@@ -2608,9 +2608,21 @@ class RepairModel_LF(RepairModel_Base):
         )
         performance_group.index.names = ['cmp', 'loc', 'dir', 'uid']
 
+        # the demands that act on each performance group follow from
+        # the consequence model of its component
+        consequence_index = pd.MultiIndex.from_tuples(
+            dict.fromkeys(
+                ((loss_map[component], decision_variable), location, direction, uid)
+                for (component, decision_variable), location, direction, uid
+                in performance_group.index
+            ),
+            names=performance_group.index.names,
+        )
         required_edps = base.invert_mapping(
             _get_required_demand_type(
-                self.loss_params, performance_group, demand_offset
+                self.loss_params,
+                pd.DataFrame(index=consequence_index),
+                demand_offset,
             )
         )
 
@@ -2787,7 +2799,7 @@ class RepairModel_LF(RepairModel_Base):
             edp_values = demand_dict[edp]
             assert self.loss_params is not None
             loss_function_str = self.loss_params.loc[
-                (component, decision_variable), ('LossFunction', 'Theta_0')
+                (consequence, decision_variable), ('LossFunction', 'Theta_0')
             ]
             assert isinstance(loss_function_str, str)
             try:
-- 
2.43.0


From d689666c816af5497c9ee04fa00571e79c2c7871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 29/53] fix: loading loss parameters again does not convert
 their units again

---
 pelicun/model/loss_model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 57a9767..4f78419 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1626,6 +1626,7 @@ class RepairModel_Base(PelicunModel):
 
     __slots__ = [
         'consequence',
+        'converted',
         'decision_variables',
         'loss_map',
         'loss_params',
@@ -1648,6 +1649,8 @@ class RepairModel_Base(PelicunModel):
         self.loss_params: pd.DataFrame | None = None
         self.sample: pd.DataFrame | None = None
         self.consequence = 'Repair'
+        # rows of the loss parameters that are already in base units
+        self.converted: set = set()
         self.decision_variables: tuple[str, ...] = ()
         self.loss_map: pd.DataFrame | None = None
         self.missing: set = set()
@@ -2169,8 +2172,11 @@ class RepairModel_DS(RepairModel_Base):
         """Convert previously loaded loss parameters to base units."""
         if self.loss_params is None:
             return
-        units = self.loss_params['DV', 'Unit']
+        units = self.loss_params['DV', 'Unit'].mask(
+            self.loss_params.index.isin(self.converted)
+        )
         arg_units = self.loss_params['Quantity', 'Unit']
+        self.converted = set(self.loss_params.index)
         for column in self.loss_params.columns.unique(level=0):
             if not column.startswith('DS'):
                 continue
@@ -2714,8 +2720,11 @@ class RepairModel_LF(RepairModel_Base):
         """Convert previously loaded loss parameters to base units."""
         if self.loss_params is None:
             return
-        units = self.loss_params['DV', 'Unit']
+        units = self.loss_params['DV', 'Unit'].mask(
+            self.loss_params.index.isin(self.converted)
+        )
         arg_units = self.loss_params['Demand', 'Unit']
+        self.converted = set(self.loss_params.index)
         column = 'LossFunction'
         params = self.loss_params[column].copy()
         assert isinstance(params, pd.DataFrame)
-- 
2.43.0


From fb3d9ea7c7ba6d73562cd6b59ebabd2cee479786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 30/53] fix: every pair of components in a loss combination
 uses its own table

---
 pelicun/model/loss_model.py | 59 +++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 4f78419..a7cf77b 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1157,11 +1157,6 @@ class LossModel(PelicunModel):
         # decision variable.
         potential_groups = self._identify_potential_groups(dsample)
 
-        # cache already defined interpolation functions. This obviates
-        # the need to define all of them and we can just define them
-        # on the spot when needed, and reuse them if available.
-        interpolation_function_cache: dict = {}
-
         for (
             decision_variable,
             combination_data,
@@ -1170,37 +1165,31 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_parameters,
             ) in combination_data.items():
-                # determine if the components to combine are part of
-                # an available group
-                target_group: dict | None = None
-                for available_group in potential_groups[decision_variable]:
+                # determine where the components to combine are part
+                # of an available group
+                target_locations = [
+                    loc_dir_uid
+                    for available_group, locations in potential_groups[
+                        decision_variable
+                    ].items()
                     # check if `components_to_combine` is a subset of
                     # that available group
-                    if frozenset(components_to_combine) <= available_group:
-                        target_group = available_group
-                        break
-                assert target_group is not None
+                    if frozenset(components_to_combine) <= available_group
+                    for loc_dir_uid in locations
+                ]
+                assert target_locations
+                # define interpolation function
+                domains, reference_values = combination_parameters
+                interp_func = RegularGridInterpolator(domains, reference_values)
                 # construct relevant loss sample columns
-                for loc_dir_uid in potential_groups[decision_variable][target_group]:
+                for loc_dir_uid in target_locations:
+                    # the dimensions of the table follow the order of
+                    # the components
                     cols = [
                         (decision_variable, dmg_to_loss[x], x, *loc_dir_uid)
-                        for x in target_group
+                        for x in components_to_combine
                     ]
                     values = np.column_stack([dsample[col] for col in cols])
-                    # define/get interpolation function
-                    if (
-                        interpolation_function_cache.get(components_to_combine)
-                        is not None
-                    ):
-                        interp_func = interpolation_function_cache.get(
-                            components_to_combine
-                        )
-                    else:
-                        domains, reference_values = combination_parameters
-                        interp_func = RegularGridInterpolator(
-                            domains, reference_values
-                        )
-                    assert interp_func is not None
                     combined_loss = interp_func(values)
                     combined_loss_col = (
                         decision_variable,
@@ -1312,9 +1301,15 @@ class LossModel(PelicunModel):
                 components_to_combine,
                 combination_array,
             ) in combination_data.items():
-                combination_index = (
-                    combination_array[:, 0],
-                    combination_array[0, :],
+                num_dimensions = combination_array.ndim
+                combination_index = tuple(
+                    combination_array[
+                        tuple(
+                            slice(None) if axis == i else 0
+                            for axis in range(num_dimensions)
+                        )
+                    ]
+                    for i in range(num_dimensions)
                 )
                 loss_combination_converted[decision_variable][
                     components_to_combine
-- 
2.43.0


From 415a113f57c149922ccecbcbb4850c61d27c8fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 31/53] fix: demands that are generated and cloned again keep
 their units

---
 pelicun/model/demand_model.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 31fd588..20d1fd9 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1117,6 +1117,15 @@ class DemandModel(PelicunModel):
                 new_column_values = demand_cloning[column]
                 column_index.extend([i] * len(new_column_values))
                 column_values.extend(new_column_values)
+        # identify the units of those columns. If an earlier sample was
+        # cloned, the units are already those of the copies.
+        assert self.user_units is not None
+        units = self.user_units.to_dict()
+        for column, new_column_values in demand_cloning.items():
+            for new_column in new_column_values:
+                if column not in units and new_column in units:
+                    units[column] = units[new_column]
+        source_columns = self.sample.columns[column_index]
         # copy the columns
         column_names = self.sample.columns.names
         self.sample = self.sample.iloc[:, column_index]
@@ -1125,9 +1134,11 @@ class DemandModel(PelicunModel):
             column_values, names=column_names
         )
         # update units
-        self.user_units = self.user_units.iloc[column_index]  # type: ignore
-        assert self.user_units is not None
-        self.user_units.index = self.sample.columns
+        self.user_units = pd.Series(
+            [units[column] for column in source_columns],
+            index=self.sample.columns,
+            name=self.user_units.name,
+        )
 
     def generate_sample(self, config: dict) -> None:
         """
-- 
2.43.0


From 91f74b7f92f2c2c77e5239bbd63af54c403e5520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 32/53] fix: losses that are whole numbers can be converted and
 scaled

---
 pelicun/model/loss_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index a7cf77b..a51b329 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2158,7 +2158,7 @@ class RepairModel_DS(RepairModel_Base):
         lvl_names = ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid']
         dv_sample = pd.concat(res_list, axis=1, keys=key_list, names=lvl_names)
 
-        dv_sample = dv_sample.fillna(0).convert_dtypes()
+        dv_sample = dv_sample.fillna(0).astype(float)
 
         self.log.msg('Successfully obtained DV sample.', prepend_timestamp=False)
         self.sample = dv_sample
-- 
2.43.0


From dd58a42e50a882e31ae94dcb72df286eda524087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 33/53] fix: an interrupted conversion of parameter units is
 not taken for a finished one

---
 pelicun/model/damage_model.py |  9 +++++----
 pelicun/model/loss_model.py   | 12 +++++++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index c67c462..d131931 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -536,14 +536,15 @@ class DamageModel_Base(PelicunModel):
             return
 
         units = self.damage_params['Demand', 'Unit']
-        self.damage_params = self.damage_params.drop(('Demand', 'Unit'), axis=1)
-        for ls_i in self.damage_params.columns.unique(level=0):
+        damage_params = self.damage_params.drop(('Demand', 'Unit'), axis=1)
+        for ls_i in damage_params.columns.unique(level=0):
             if ls_i.startswith('LS'):
-                params = self.damage_params.loc[:, ls_i].copy()
+                params = damage_params.loc[:, ls_i].copy()
                 assert isinstance(params, pd.DataFrame)
-                self.damage_params.loc[:, ls_i] = self._convert_marginal_params(
+                damage_params.loc[:, ls_i] = self._convert_marginal_params(
                     params, units
                 ).to_numpy()
+        self.damage_params = damage_params
 
     def remove_incomplete_components(self) -> None:
         """
diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index a51b329..1087978 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2171,15 +2171,17 @@ class RepairModel_DS(RepairModel_Base):
             self.loss_params.index.isin(self.converted)
         )
         arg_units = self.loss_params['Quantity', 'Unit']
-        self.converted = set(self.loss_params.index)
-        for column in self.loss_params.columns.unique(level=0):
+        loss_params = self.loss_params.copy()
+        for column in loss_params.columns.unique(level=0):
             if not column.startswith('DS'):
                 continue
-            params = self.loss_params.loc[:, column].copy()
+            params = loss_params.loc[:, column].copy()
             assert isinstance(params, pd.DataFrame)
-            self.loss_params.loc[:, column] = self._convert_marginal_params(
+            loss_params.loc[:, column] = self._convert_marginal_params(
                 params, units, arg_units
             ).to_numpy()
+        self.loss_params = loss_params
+        self.converted = set(loss_params.index)
 
     def drop_unused_damage_states(self) -> None:
         """
@@ -2719,7 +2721,6 @@ class RepairModel_LF(RepairModel_Base):
             self.loss_params.index.isin(self.converted)
         )
         arg_units = self.loss_params['Demand', 'Unit']
-        self.converted = set(self.loss_params.index)
         column = 'LossFunction'
         params = self.loss_params[column].copy()
         assert isinstance(params, pd.DataFrame)
@@ -2729,6 +2730,7 @@ class RepairModel_LF(RepairModel_Base):
             arg_units,
             divide_units=False,
         ).to_numpy()
+        self.converted = set(self.loss_params.index)
         return
 
     def _calc_median_consequence(
-- 
2.43.0


From e37032fcdbb1743010a8b601f831cec8d0bf7edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 34/53] fix: losses of components with dispersion for some of
 their damage states

---
 pelicun/model/loss_model.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 1087978..8994b81 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2034,9 +2034,12 @@ class RepairModel_DS(RepairModel_Base):
         for decision_variable in self.decision_variables:  # noqa: PLR1702
             if decision_variable in std_dvs:
                 assert isinstance(std_sample, pd.DataFrame)
-                prob_cmp_list = std_sample[decision_variable].columns.unique(level=0)
+                # damage states of a component may be without dispersion
+                prob_cmp_ds = {
+                    (cmp, ds) for cmp, ds, *_ in std_sample[decision_variable]
+                }
             else:
-                prob_cmp_list = []
+                prob_cmp_ds = set()
 
             cmp_list: list[tuple[Any, ...]] = []
 
@@ -2080,7 +2083,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_ds:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
@@ -2101,7 +2104,7 @@ class RepairModel_DS(RepairModel_Base):
                                 :, (component, ds, loc)  # type: ignore
                             ]
 
-                            if component in prob_cmp_list:
+                            if (component, ds) in prob_cmp_ds:
                                 assert std_sample is not None
                                 std_i = std_sample.loc[
                                     :,
-- 
2.43.0


From 0fb501bc624d7006b492c98fbc17d3d0331fe599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 35/53] fix: demand expressions of some components do not
 affect the others

---
 pelicun/model/demand_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 20d1fd9..b59449d 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -1304,6 +1304,9 @@ def _get_required_demand_type(
         # Utility Demand: if there is an `Expression`, then load the
         # rest of the demand types.
         expression = model_parameters.loc[cmp, :].get(('Demand', 'Expression'))
+        if pd.isna(expression):
+            # other components have one, but not this one
+            expression = None
         if expression is not None:
             # get the number of variables in the expression using
             # the numexpr library
-- 
2.43.0


From 2ee3aed34f76a4cdf11de722c167495180528414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 36/53] fix: losses of loss functions that no component uses
 any more

---
 pelicun/model/loss_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 8994b81..7ca7864 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2570,6 +2570,9 @@ class RepairModel_LF(RepairModel_Base):
 
 
         """
+        # results of an earlier calculation do not apply any more
+        self.sample = None
+
         if self.loss_params is None:
             return
 
-- 
2.43.0


From 7bb485ed506fda76885cb0c24b06dabe26bf3b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 37/53] fix: demand models calibrated to data with errors can
 be saved

The units of the ERROR column were kept after the column was removed, so
that save_model found different indices in the units and the marginals.
---
 pelicun/model/demand_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index b59449d..a9996fb 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -317,6 +317,9 @@ class DemandModel(PelicunModel):
         # parse the index for the units
         units.index = parse_header(units.index)
 
+        # the errors have been removed above
+        units = units.drop('ERROR', level=0, errors='ignore')
+
         self.user_units = units
 
         self.log.msg('Demand units successfully parsed.', prepend_timestamp=False)
-- 
2.43.0


From 84f89e45456ca34166416f6abc4efc20fdf7ca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:14 +0000
Subject: [PATCH 38/53] fix: load_model takes the empirical data from a
 dictionary

The value under 'empirical' was ignored, and the empirical data of an
earlier model were kept.
---
 pelicun/model/demand_model.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index a9996fb..a3615bc 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -894,19 +894,21 @@ class DemandModel(PelicunModel):
             msg = f'Invalid data_source type: {type(data_source)}.'
             raise TypeError(msg)
 
+        if (
+            isinstance(empirical_data_source, str)
+            and not Path(empirical_data_source).exists()
+        ):
+            empirical_data_source = None
+
         if empirical_data_source is not None:
-            if (
-                isinstance(empirical_data_source, str)
-                and Path(empirical_data_source).exists()
-            ):
-                empirical_data = file_io.load_data(
-                    empirical_data_source,
-                    self._asmnt.unit_conversion_factors,
-                    log=self._asmnt.log,
-                )
-                assert isinstance(empirical_data, pd.DataFrame)
-                self.empirical_data = empirical_data
-                self.empirical_data.columns.names = ['type', 'loc', 'dir']
+            empirical_data = file_io.load_data(
+                empirical_data_source,
+                self._asmnt.unit_conversion_factors,
+                log=self._asmnt.log,
+            )
+            assert isinstance(empirical_data, pd.DataFrame)
+            self.empirical_data = empirical_data
+            self.empirical_data.columns.names = ['type', 'loc', 'dir']
         else:
             self.empirical_data = None
 
-- 
2.43.0


From 05b988e0f6808cb3e3c26a1fd9f4cdece28a3411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 39/53] fix: additional uncertainty of normal demands is a
 standard deviation

The additional uncertainty of normal demands is given (and converted) in
the unit of the demand, but it was combined with the coefficient of
variation of the fitted distribution.
---
 pelicun/model/demand_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index a3615bc..02b8061 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -788,6 +788,13 @@ class DemandModel(PelicunModel):
             )
             sig_0 = model_params.loc[:, 'Theta_1'].to_numpy()
 
+            # the second parameter of normal distributions is a coefficient
+            # of variation, while the increase is a standard deviation
+            normal = (model_params['Family'] == 'normal').to_numpy()
+            sig_inc[normal] /= np.abs(
+                model_params.loc[normal, 'Theta_0'].to_numpy(dtype=float)
+            )
+
             model_params.loc[:, 'Theta_1'] = np.sqrt(
                 sig_0**2.0 + sig_inc**2.0,  # type: ignore
             )
-- 
2.43.0


From 79a0096defced47e9298d628cd7ed511643465b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:59 +0000
Subject: [PATCH 40/53] fix: demand models with only empirical demands can be
 loaded

The correlation matrix in the files of such a model has no rows and no
columns, which load_model could not parse.
---
 pelicun/base.py               |  4 ++++
 pelicun/model/demand_model.py | 14 ++++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/pelicun/base.py b/pelicun/base.py
index b47ce12..91b2fd3 100644
--- a/pelicun/base.py
+++ b/pelicun/base.py
@@ -848,6 +848,10 @@ def convert_to_MultiIndex(  # noqa: N802
         msg = f'Invalid axis parameter: {axis}'
         raise ValueError(msg)
 
+    if not index_labels:
+        # there are no labels to convert
+        return data
+
     max_lbl_len = np.max([len(labels) for labels in index_labels])
 
     for l_i, labels in enumerate(index_labels):
diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 02b8061..13d8bab 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -927,13 +927,15 @@ class DemandModel(PelicunModel):
                 log=self._asmnt.log,
             )
             assert isinstance(correlation, pd.DataFrame)
+            # (there are no labels if all demands in the model are empirical)
+            if not correlation.empty:
+                correlation.index = correlation.index.set_names(
+                    ['type', 'loc', 'dir']
+                )
+                correlation.columns = correlation.columns.set_names(
+                    ['type', 'loc', 'dir']
+                )
             self.correlation = correlation
-            self.correlation.index = self.correlation.index.set_names(
-                ['type', 'loc', 'dir']
-            )
-            self.correlation.columns = self.correlation.columns.set_names(
-                ['type', 'loc', 'dir']
-            )
         else:
             self.correlation = None
 
-- 
2.43.0


From 738d3983ee419ca9db190494e86fd010b651e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 41/53] fix: calibration limits are converted once

Limits for all demands were converted again, with the unit of the settings
for a demand type, when these do not replace them.
---
 pelicun/model/demand_model.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 13d8bab..56fab5c 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -585,6 +585,9 @@ class DemandModel(PelicunModel):
             # load the distribution family
             cal_df.loc[list(cols), 'Family'] = settings['DistributionFamily']
 
+            # the limits are specified in the unit of these settings
+            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
+
             # load limits
             for lim in (
                 'CensorLower',
@@ -595,18 +598,7 @@ class DemandModel(PelicunModel):
                 if lim in settings:
                     val = parse_str_to_float(settings[lim], lim)
                     if not pd.isna(val):
-                        cal_df.loc[list(cols), lim] = val
-
-            # scale the censor and truncation limits, if needed
-            scale_factor = self._asmnt.scale_factor(settings.get('Unit'))
-
-            rows_to_scale = [
-                'CensorLower',
-                'CensorUpper',
-                'TruncateLower',
-                'TruncateUpper',
-            ]
-            cal_df.loc[idx[cols, :, :], rows_to_scale] *= scale_factor  # type: ignore
+                        cal_df.loc[list(cols), lim] = val * scale_factor
 
             # load the prescribed additional uncertainty
             if 'AddUncertainty' in settings:
-- 
2.43.0


From c88f6f3683863e364040d6c9d035c0f1ffb09049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:04 +0000
Subject: [PATCH 42/53] fix: empirical data of earlier demand models do not
 become part of others

Data kept from an earlier calibration, or left by an earlier or
interrupted save under the same prefix, were saved and loaded with a
model that has no empirical demands; a file cut short made load_model
fail.
---
 pelicun/model/demand_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pelicun/model/demand_model.py b/pelicun/model/demand_model.py
index 56fab5c..51b799b 100644
--- a/pelicun/model/demand_model.py
+++ b/pelicun/model/demand_model.py
@@ -729,6 +729,9 @@ class DemandModel(PelicunModel):
         assert isinstance(demand_sample, pd.DataFrame)
         if empirical_edps:
             self.empirical_data = demand_sample.loc[:, empirical_edps].copy()
+        else:
+            # do not keep the data of an earlier calibration
+            self.empirical_data = None
 
         # remove the empirical demands from the samples used for calibration
         demand_sample = demand_sample.drop(empirical_edps, axis=1)
@@ -836,6 +839,9 @@ class DemandModel(PelicunModel):
                 unit_conversion_factors=self._asmnt.unit_conversion_factors,
                 log=self._asmnt.log,
             )
+        else:
+            # the data of an earlier model are not part of this one
+            Path(file_prefix + '_empirical.csv').unlink(missing_ok=True)
 
         # Converting the marginal parameters requires special
         # treatment, so we can't rely on file_io's universal unit
-- 
2.43.0


From 03a6137113fc629c079dd50a8d6ff804c6827461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 43/53] fix: multilinear capacities of components with several
 blocks

---
 pelicun/model/damage_model.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pelicun/model/damage_model.py b/pelicun/model/damage_model.py
index d131931..dfe35d0 100644
--- a/pelicun/model/damage_model.py
+++ b/pelicun/model/damage_model.py
@@ -1518,6 +1518,21 @@ class DamageModel_DS(DamageModel_Base):
                         ]
                     )
 
+                    # parse theta values for multilinear_CDF
+                    if family == 'multilinear_CDF':
+                        theta = np.column_stack(  # type: ignore
+                            (
+                                np.array(
+                                    theta[0].split('|')[0].split(','),
+                                    dtype=float,
+                                ),
+                                np.array(
+                                    theta[0].split('|')[1].split(','),
+                                    dtype=float,
+                                ),
+                            )
+                        )
+
                     for block_i, _ in enumerate(blocks):
                         frg_rv_tag = (
                             'FRG-'
@@ -1547,21 +1562,6 @@ class DamageModel_DS(DamageModel_Base):
                         else:
                             anchor = anchor_rvs[block_i]
 
-                        # parse theta values for multilinear_CDF
-                        if family == 'multilinear_CDF':
-                            theta = np.column_stack(  # type: ignore
-                                (
-                                    np.array(
-                                        theta[0].split('|')[0].split(','),
-                                        dtype=float,
-                                    ),
-                                    np.array(
-                                        theta[0].split('|')[1].split(','),
-                                        dtype=float,
-                                    ),
-                                )
-                            )
-
                         rv = uq.rv_class_map(family)(  # type: ignore
                             name=frg_rv_tag,
                             theta=theta,
-- 
2.43.0


From 03920c04338802b23ee62e96e7b563576d7c4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 44/53] fix: truncation of uniform variables never widens their
 range

---
 pelicun/uq.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 22e743f..05a2ba2 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1882,7 +1882,10 @@ class UniformRandomVariable(RandomVariable):
             b = np.inf
 
         if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+            # keep the part of the range that is within the limits; a
+            # missing limit leaves that end of the range as it is
+            a = np.fmax(a, self.truncation_limits[0])
+            b = np.fmin(b, self.truncation_limits[1])
 
         return uniform.cdf(values, loc=a, scale=(b - a))
 
@@ -1912,7 +1915,10 @@ class UniformRandomVariable(RandomVariable):
             b = np.inf
 
         if np.any(~np.isnan(self.truncation_limits)):
-            a, b = self.truncation_limits
+            # keep the part of the range that is within the limits; a
+            # missing limit leaves that end of the range as it is
+            a = np.fmax(a, self.truncation_limits[0])
+            b = np.fmin(b, self.truncation_limits[1])
 
         return uniform.ppf(values, loc=a, scale=(b - a))
 
-- 
2.43.0


From 543488d70521b158bf8ca4a75b4c0cbfd003c75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 45/53] fix: normal and deterministic variables with parameters
 that vary by realization

---
 pelicun/uq.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pelicun/uq.py b/pelicun/uq.py
index 05a2ba2..bc12374 100644
--- a/pelicun/uq.py
+++ b/pelicun/uq.py
@@ -1655,8 +1655,8 @@ class Normal_STD(NormalRandomVariable):
         anchor: BaseRandomVariable | None = None,
     ) -> None:
         """Instantiate a Normal_STD random variable."""
-        mean, std = theta[:2]
-        theta = np.array([mean, std])
+        mean, std = np.asarray(theta).T[:2]
+        theta = np.array([mean, std]).T
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
@@ -1688,15 +1688,15 @@ class Normal_COV(NormalRandomVariable):
           If the specified mean is zero.
 
         """
-        mean, cov = theta[:2]
+        mean, cov = np.asarray(theta).T[:2]
 
         almost_zero = 1e-40
-        if np.abs(mean) < almost_zero:
+        if np.any(np.abs(mean) < almost_zero):
             msg = 'The mean of Normal_COV RVs cannot be zero.'
             raise ValueError(msg)
 
         std = mean * cov
-        theta = np.array([mean, std])
+        theta = np.array([mean, std]).T
         super().__init__(name, theta, truncation_limits, f_map, anchor)
 
 
@@ -2403,6 +2403,9 @@ class DeterministicRandomVariable(UtilityRandomVariable):
           Sample array containing the deterministic value.
 
         """
+        if self.theta.ndim > 1:
+            # parameters that vary by realization
+            return self.theta[:, 0].astype(float)
         return np.full(sample_size, self.theta[0])
 
 
-- 
2.43.0


From 29d19af4c98b15429fb696cc6c2099ad05912830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 46/53] fix: cost-time correlation of components that have Cost
 in their name

---
 pelicun/model/loss_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 7ca7864..33ba33c 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -2346,7 +2346,7 @@ class RepairModel_DS(RepairModel_Base):
                 loc = rv_tag.split('-')[3]
                 direction = rv_tag.split('-')[4]
                 uid = rv_tag.split('-')[5]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
@@ -2932,7 +2932,7 @@ class RepairModel_LF(RepairModel_Base):
                 direction = split[4]
                 uid = split[5]
                 block = split[6]
-                time_rv_tag = rv_tag.replace('Cost', 'Time')
+                time_rv_tag = rv_tag.replace('Cost', 'Time', 1)
                 if time_rv_tag in rv_reg.RV:
                     rv_reg.add_RV_set(
                         uq.RandomVariableSet(
-- 
2.43.0


From 3bea4b1b43cab3cb28dccb68f5bd4252d1bd2388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:20 +0000
Subject: [PATCH 47/53] fix: every row of a component model is read in its own
 unit

---
 pelicun/model/asset_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/asset_model.py b/pelicun/model/asset_model.py
index 7fafa8c..e10d1ee 100644
--- a/pelicun/model/asset_model.py
+++ b/pelicun/model/asset_model.py
@@ -362,7 +362,8 @@ class AssetModel(PelicunModel):
                         * num_vals
                     )
                 elif col == 'Units':
-                    cmp_marginal_param.extend([self.cmp_units[row.Index]] * num_vals)
+                    unit = self.cmp_units[row.Index] if pd.isna(row.Units) else row.Units
+                    cmp_marginal_param.extend([unit] * num_vals)
                 elif col == 'Family':
                     cmp_marginal_param.extend([getattr(row, col, np.nan)] * num_vals)
                 else:
-- 
2.43.0


From cb38989ca4159ef8f925359c7c81bda79e6086cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:39 +0000
Subject: [PATCH 48/53] fix: residual drift settings of the user stay as they
 are

---
 pelicun/assessment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 8de1988..42bc9b9 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -731,6 +731,7 @@ class DLCalculationAssessment(AssessmentBase):
         if residual_drift_inference:
             # `method` is guaranteed to exist because it is confirmed when
             # parsing the configuration file.
+            residual_drift_inference = residual_drift_inference.copy()
             rid_inference_method = residual_drift_inference.pop('method')
 
             if rid_inference_method == 'FEMA P-58':
-- 
2.43.0


From dfd96ebdd23355318897880e9860bb5d11cbf469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:31 +0000
Subject: [PATCH 49/53] fix: a calculation may use a component sample file

The schema demanded a component assignment file, and a configuration with
both is refused later on, so that no configuration with a component sample
file was ever accepted.
---
 pelicun/settings/input_schema.json | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pelicun/settings/input_schema.json b/pelicun/settings/input_schema.json
index 346a9b0..8dac0cb 100644
--- a/pelicun/settings/input_schema.json
+++ b/pelicun/settings/input_schema.json
@@ -168,10 +168,7 @@
             "ComponentDatabasePath": {
               "type": "string"
             }
-          },
-          "required": [
-            "ComponentAssignmentFile"
-          ]
+          }
         },
         "Damage": {
           "type": "object",
-- 
2.43.0


From 9da832ca49c9c0a74866c665b7b76d147f9222f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:43 +0000
Subject: [PATCH 50/53] fix: a collapse limit may be a whole number

---
 pelicun/assessment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 42bc9b9..22b946c 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -659,7 +659,7 @@ class DLCalculationAssessment(AssessmentBase):
 
             for dem_type, limit in collapse_limits.items():
                 assert isinstance(dem_type, str)
-                assert isinstance(limit, (str, float))
+                assert isinstance(limit, (str, int, float))
                 nlevels_with_event_id = 4
                 if raw_demands.columns.nlevels == nlevels_with_event_id:
                     dem_to_drop += raw_demands.loc[
-- 
2.43.0


From 28b167021f4e9954ed9caab7f0ffc366d12f8558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:48 +0000
Subject: [PATCH 51/53] fix: consequences that are redefined are looked up once

---
 pelicun/assessment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index 22b946c..e77d9c9 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1345,8 +1345,8 @@ class DLCalculationAssessment(AssessmentBase):
             custom_model_dir,
         )
 
-        # remove duplicates from conseq_df
-        conseq_df = conseq_df.loc[conseq_df.index.unique(), :]
+        # remove duplicates from conseq_df (later databases have priority)
+        conseq_df = conseq_df.loc[~conseq_df.index.duplicated(keep='last'), :]
 
         # add the replacement consequence to the data
         adf = pd.DataFrame(
-- 
2.43.0


From 59d5b6de0ff4c254fa9b921f599517614f17ba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:48 +0000
Subject: [PATCH 52/53] fix: a loss map may set the consequences of collapse

---
 pelicun/assessment.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pelicun/assessment.py b/pelicun/assessment.py
index e77d9c9..5225666 100644
--- a/pelicun/assessment.py
+++ b/pelicun/assessment.py
@@ -1417,8 +1417,9 @@ class DLCalculationAssessment(AssessmentBase):
 
         # prepare additional loss map entries, if needed
         if 'DMG-collapse' not in loss_map.index:
-            loss_map.loc['collapse', 'Repair'] = 'replacement'
-            loss_map.loc['irreparable', 'Repair'] = 'replacement'
+            for driver in ('collapse', 'irreparable'):
+                if driver not in loss_map.index:
+                    loss_map.loc[driver, 'Repair'] = 'replacement'
 
         if decision_variables:
             self.loss.decision_variables = decision_variables
-- 
2.43.0


From f7f4faaa3363f87f6f0b67656bd3189d6dc62123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:24 +0000
Subject: [PATCH 53/53] fix: combining losses when one of the components has
 none

---
 pelicun/model/loss_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pelicun/model/loss_model.py b/pelicun/model/loss_model.py
index 33ba33c..72b29b0 100644
--- a/pelicun/model/loss_model.py
+++ b/pelicun/model/loss_model.py
@@ -1177,7 +1177,14 @@ class LossModel(PelicunModel):
                     if frozenset(components_to_combine) <= available_group
                     for loc_dir_uid in locations
                 ]
-                assert target_locations
+                if not target_locations:
+                    # e.g., none of the realizations has losses from
+                    # one of the components
+                    self.log.warning(
+                        f'There are no {decision_variable} losses to '
+                        f'combine for {components_to_combine}.'
+                    )
+                    continue
                 # define interpolation function
                 domains, reference_values = combination_parameters
                 interp_func = RegularGridInterpolator(domains, reference_values)
-- 
2.43.0

