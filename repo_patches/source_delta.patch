From 29aca762ed9f04f9a0ed3bbae54afc6df3c73b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:17 +0000
Subject: [PATCH 01/39] fix: read items of vaults whose path contains pattern
 characters

---
 1pass-parse/repo/file/itemrepo.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 9f73385..9727d2d 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -22,6 +22,30 @@ func NewFileItemRepo() *fileItemRepo {
 	return &fileItemRepo{}
 }
 
+// Only file name is matched against pattern, OPVault path can contain any characters.
+func findBandFiles(profileDir string) []string {
+	bandFiles := make([]string, 0)
+	files, err := ioutil.ReadDir(profileDir)
+
+	if err != nil {
+		return bandFiles
+	}
+
+	for _, file := range files {
+		matched, err := filepath.Match(domain.BandFilePattern, file.Name())
+
+		if err != nil {
+			log.Fatalln(err)
+		}
+
+		if matched {
+			bandFiles = append(bandFiles, filepath.Join(profileDir, file.Name()))
+		}
+	}
+
+	return bandFiles
+}
+
 func (repo *fileItemRepo) CountByCategoryAndTrashed(category *domain.ItemCategory, trashed bool) int {
 	count := 0
 
@@ -87,11 +111,7 @@ func (repo *fileItemRepo) FindFirstByUidAndTrashed(uid string, trashed bool) *do
 func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 	items := make([]*domain.RawItem, 0)
 	var itemsJson map[string]interface{}
-	bandFiles, err := filepath.Glob(filepath.Join(vault.Path, domain.ProfileDir, domain.BandFilePattern))
-
-	if err != nil {
-		log.Fatalln(err)
-	}
+	bandFiles := findBandFiles(filepath.Join(vault.Path, domain.ProfileDir))
 
 	if len(bandFiles) != 0 {
 		itemsFile := "{"
-- 
2.43.0


From ea4abe1a58ce1bb2b273415341130613dc43ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:41 +0000
Subject: [PATCH 02/39] fix: load vaults that contain an empty band file

---
 1pass-parse/repo/file/itemrepo.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 9727d2d..c6bfb28 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -123,10 +123,12 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 				log.Fatalln(err)
 			}
 
-			itemsFile = itemsFile + string(file[4:len(file)-3]) + ","
+			if band := strings.TrimSpace(string(file[4 : len(file)-3])); band != "" {
+				itemsFile = itemsFile + band + ","
+			}
 		}
 
-		itemsFile = itemsFile[:len(itemsFile)-1] + "}"
+		itemsFile = strings.TrimSuffix(itemsFile, ",") + "}"
 
 		if err := json.Unmarshal([]byte(itemsFile), &itemsJson); err != nil {
 			log.Fatalln(err)
-- 
2.43.0


From 77e890b50e640933c89caa8d7e88129a7df153ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:45 +0000
Subject: [PATCH 03/39] fix: show stored calendar dates instead of 1970-01-01

---
 1pass-core/core/service/itemservice.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 037ef49..0117592 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -27,6 +28,15 @@ func NewDfltItemService(keyService KeyService, itemRepo out.ItemRepo) *dfltItemS
 	}
 }
 
+// JSON numbers are decoded as floats, large ones must not be formatted with exponent.
+func formatNumber(value interface{}) string {
+	if number, ok := value.(float64); ok {
+		return strconv.FormatFloat(number, 'f', -1, 64)
+	}
+
+	return fmt.Sprint(value)
+}
+
 func (s *dfltItemService) ClearMemory() {
 	s.itemRepo.RemoveItems()
 }
@@ -171,7 +181,7 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 				if dataType == domain.DataTypeEnum.Address {
 					value = domain.DataTypeEnum.ParseValue(dataType, "", data["v"].(map[string]interface{}))
 				} else {
-					value = domain.DataTypeEnum.ParseValue(dataType, fmt.Sprint(data["v"]), nil)
+					value = domain.DataTypeEnum.ParseValue(dataType, formatNumber(data["v"]), nil)
 				}
 			}
 
-- 
2.43.0


From 54694473cfc77e740fcff8aaf831c463ca7083db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:50 +0000
Subject: [PATCH 04/39] fix: show login fields of items that also have sections

---
 1pass-core/core/service/itemservice.go | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 0117592..75750e7 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -67,25 +67,25 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			detailsJson := s.DecodeDetails(encoded, keys)
 			sections := make([]*domain.ItemSection, 0)
 
-			if detailsJson["sections"] == nil {
-				if detailsJson["fields"] != nil {
-					fieldsJson := detailsJson["fields"].([]interface{})
-					fields := make([]*domain.ItemField, 0)
+			if detailsJson["fields"] != nil {
+				fieldsJson := detailsJson["fields"].([]interface{})
+				fields := make([]*domain.ItemField, 0)
 
-					for _, fieldJson := range fieldsJson {
-						field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
+				for _, fieldJson := range fieldsJson {
+					field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
 
-						if field != nil {
-							fields = append(fields, field)
-						}
+					if field != nil {
+						fields = append(fields, field)
 					}
+				}
 
-					if len(fields) != 0 {
-						section := domain.NewItemSection("", fields)
-						sections = append(sections, section)
-					}
+				if len(fields) != 0 {
+					section := domain.NewItemSection("", fields)
+					sections = append(sections, section)
 				}
-			} else {
+			}
+
+			if detailsJson["sections"] != nil {
 				sectionsJson := detailsJson["sections"].([]interface{})
 
 				for _, sectionJson := range sectionsJson {
-- 
2.43.0


From a811f360abaf150187a18854ac8be8cc710100c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:23 +0000
Subject: [PATCH 05/39] fix: open the highlighted category in GUI when there
 are no trashed items

---
 1pass-app/gui/1passwidget.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 50f5dbd..b8371e8 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -22,6 +22,7 @@ Open: ENTER`
 
 type onepassWidget struct {
 	currIdx     int
+	trashedIdx  int
 	name        string
 	title       string
 	errDialog   *errorDialog
@@ -36,6 +37,7 @@ type onepassWidget struct {
 func newOnepassWidget(helpWidget *helpWidget, vault *domain.Vault, guiControl in.GuiControl) *onepassWidget {
 	widget := &onepassWidget{
 		currIdx:    -1,
+		trashedIdx: -1,
 		title:      "1Pass",
 		name:       "1pass",
 		helpWidget: helpWidget,
@@ -100,6 +102,7 @@ func (ow *onepassWidget) cursorUp(ui *gocui.Gui, view *gocui.View) error {
 
 func (ow *onepassWidget) lock(ui *gocui.Gui, view *gocui.View) error {
 	ow.currIdx = -1
+	ow.trashedIdx = -1
 	ow.categories = make([]*domain.ItemCategory, 0)
 	ow.guiControl.LockVault()
 
@@ -180,16 +183,12 @@ func (ow *onepassWidget) showItems(ui *gocui.Gui, view *gocui.View) error {
 
 		var items []*domain.SimpleItem
 
-		if len(ow.categories) == 1 {
+		if ow.currIdx == ow.trashedIdx {
 			items = ow.guiControl.GetItems(nil, true)
+		} else if ow.currIdx == 0 {
+			items = ow.guiControl.GetItems(nil, false)
 		} else {
-			if ow.currIdx == len(ow.categories)-1 {
-				items = ow.guiControl.GetItems(nil, true)
-			} else if ow.currIdx == 0 {
-				items = ow.guiControl.GetItems(nil, false)
-			} else {
-				items = ow.guiControl.GetItems(ow.categories[ow.currIdx], false)
-			}
+			items = ow.guiControl.GetItems(ow.categories[ow.currIdx], false)
 		}
 
 		ow.itemsWidget.items = items
@@ -242,6 +241,7 @@ func (ow *onepassWidget) update(ui *gocui.Gui) error {
 			trashedPosition := text.AlignCenter.Apply(fmt.Sprintf("Trashed (%d)", trashedCount), maxX-1)
 			fmt.Fprint(view, trashedPosition)
 			ow.categories = append(ow.categories, nil)
+			ow.trashedIdx = len(ow.categories) - 1
 		}
 
 		if len(ow.categories) > 0 {
-- 
2.43.0


From ab3925db8b31cfd1e8bf0611c1be252e9df60476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:38 +0000
Subject: [PATCH 06/39] fix: use the master password exactly as typed in GUI

---
 1pass-app/gui/1passwidget.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index b8371e8..3419577 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -150,7 +150,7 @@ func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 }
 
 func (ow *onepassWidget) unlock(ui *gocui.Gui, view *gocui.View) error {
-	password := strings.TrimSpace(view.ViewBuffer())
+	password := strings.TrimRight(view.Buffer(), "\n")
 
 	if err := ui.DeleteView(ow.passPrompt.name); err != nil {
 		return err
-- 
2.43.0


From d6402d3fc3e5f8d2a316da2170e0e3dd92901393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:03 +0000
Subject: [PATCH 07/39] fix: highlight the first category after lock of
 scrolled category list

---
 1pass-app/gui/1passwidget.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index 3419577..e54ba53 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -135,13 +135,15 @@ func (ow *onepassWidget) promptForPassword(ui *gocui.Gui) error {
 
 func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
+		ox, _ := view.Origin()
 		cx, _ := view.Cursor()
 
-		if err := view.SetCursor(cx, 0); err != nil && oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		if err := view.SetCursor(cx, 0); err != nil {
+			return err
+		}
+
+		if err := view.SetOrigin(ox, 0); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 13d3c23b5408d46eae46c6ec118eef73f161316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:08 +0000
Subject: [PATCH 08/39] fix: show whole item after details were scrolled right
 and down

---
 1pass-app/gui/detailswidget.go | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index 8889b36..b927a7c 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -39,18 +39,8 @@ func newDetailsWidget(parent string, helpWidget *helpWidget, lockHandler func(ui
 
 func (dw *detailsWidget) resetOrigin(view *gocui.View) error {
 	if view != nil {
-		ox, oy := view.Origin()
-
-		if ox > 0 {
-			if err := view.SetOrigin(0, oy); err != nil {
-				return err
-			}
-		}
-
-		if oy > 0 {
-			if err := view.SetOrigin(ox, 0); err != nil {
-				return err
-			}
+		if err := view.SetOrigin(0, 0); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From 9826754f50b25d924162237d940ca92fcc03f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:56 +0000
Subject: [PATCH 09/39] fix: draw result of background update check from GUI
 main loop

---
 1pass-app/gui/versionwidget.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/1pass-app/gui/versionwidget.go b/1pass-app/gui/versionwidget.go
index df3732b..e75ea4a 100644
--- a/1pass-app/gui/versionwidget.go
+++ b/1pass-app/gui/versionwidget.go
@@ -29,18 +29,27 @@ func newVerWidget(version string, guiControl in.GuiControl) *verWidget {
 }
 
 func (vw *verWidget) update(ui *gocui.Gui) {
-	view, _ := ui.View(vw.name)
 	info, err := vw.guiControl.CheckForUpdate()
 
-	if err != nil {
-		if err == domain.ErrNoUpdate {
-			fmt.Fprint(view, fmt.Sprintf("(%v)", err))
+	ui.Update(func(ui *gocui.Gui) error {
+		view, viewErr := ui.View(vw.name)
+
+		if viewErr != nil {
+			return viewErr
+		}
+
+		if err != nil {
+			if err == domain.ErrNoUpdate {
+				fmt.Fprint(view, fmt.Sprintf("(%v)", err))
+			} else {
+				fmt.Fprint(view, "(update check failed - run '1pass update' for more info)")
+			}
 		} else {
-			fmt.Fprint(view, "(update check failed - run '1pass update' for more info)")
+			fmt.Fprint(view, fmt.Sprintf("(new version is available: v%v - run '1pass update' to upgrade)", info.Version))
 		}
-	} else {
-		fmt.Fprint(view, fmt.Sprintf("(new version is available: v%v - run '1pass update' to upgrade)", info.Version))
-	}
+
+		return nil
+	})
 }
 
 func (vw *verWidget) Layout(ui *gocui.Gui) error {
-- 
2.43.0


From 3fbc0c6c566bedc0243c0caf52be58a0cfd5d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:35 +0000
Subject: [PATCH 10/39] fix: save configuration over empty configuration file

---
 1pass-parse/repo/file/configrepo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 7d4764e..4b825ce 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -46,6 +46,10 @@ func loadConfigFile(configDir string) map[string]interface{} {
 		log.Fatalln(err)
 	}
 
+	if config == nil {
+		config = make(map[string]interface{})
+	}
+
 	return config
 }
 
-- 
2.43.0


From d167f0aed592713b2d250d0cda02d1001b53cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:40 +0000
Subject: [PATCH 11/39] fix: never leave partial configuration file behind

---
 1pass-parse/repo/file/configrepo.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index 4b825ce..dae9323 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -53,6 +53,29 @@ func loadConfigFile(configDir string) map[string]interface{} {
 	return config
 }
 
+// Interrupted write must not leave partial configuration, so new content replaces file as a whole.
+func replaceFile(path string, content []byte) error {
+	mode := os.FileMode(0644)
+
+	if target, err := filepath.EvalSymlinks(path); err == nil {
+		path = target
+	}
+
+	if info, err := os.Stat(path); err == nil {
+		mode = info.Mode().Perm()
+	}
+
+	tmp := path + ".tmp"
+
+	if err := ioutil.WriteFile(tmp, content, mode); err != nil {
+		os.Remove(tmp)
+
+		return err
+	}
+
+	return os.Rename(tmp, path)
+}
+
 func (repo *fileConfigRepo) IsAvailable() bool {
 	return len(repo.config) > 0
 }
@@ -113,7 +136,7 @@ func (repo *fileConfigRepo) Save(config *domain.Config) {
 		os.MkdirAll(repo.configDir, 0700)
 	}
 
-	if err := ioutil.WriteFile(configFile, file, 0644); err != nil {
+	if err := replaceFile(configFile, file); err != nil {
 		log.Fatalln(err)
 	}
 
-- 
2.43.0


From 675a3e7585c21a59196b9c0a47ed19a4b51da9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:46 +0000
Subject: [PATCH 12/39] fix: read whole line as an answer for configuration
 question

---
 1pass-term/control/cobra/clicontrol.go | 31 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/1pass-term/control/cobra/clicontrol.go b/1pass-term/control/cobra/clicontrol.go
index 69b0a51..d3e4af3 100644
--- a/1pass-term/control/cobra/clicontrol.go
+++ b/1pass-term/control/cobra/clicontrol.go
@@ -34,6 +34,25 @@ func NewCobraCliControl(configFacade facade.ConfigFacade, updateFacade facade.Up
 	}
 }
 
+// Whole line is an answer for single question. It is read byte by byte, because anything read ahead would be lost for
+// following questions and password prompt.
+func readAnswer() string {
+	answer := make([]byte, 0)
+	char := make([]byte, 1)
+
+	for {
+		count, err := os.Stdin.Read(char)
+
+		if count == 1 && char[0] != '\n' {
+			answer = append(answer, char[0])
+		} else if count == 1 || err != nil {
+			break
+		}
+	}
+
+	return strings.TrimSpace(string(answer))
+}
+
 func (ctrl *cobraCliControl) CheckForUpdate() {
 	config := ctrl.configFacade.GetConfig()
 
@@ -61,18 +80,18 @@ func (ctrl *cobraCliControl) Configure() {
 	fmt.Println("Configuring 1pass:")
 	fmt.Print(fmt.Sprintf("  1. Do you want to set default OPVault path? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&confirmVal)
+	confirmVal = readAnswer()
 	confirm, err := domain.LogicValEnum.FromName(confirmVal)
 
 	if err == nil && confirm == domain.LogicValEnum.Yes {
 		fmt.Print(fmt.Sprintf("     Default OPVault path (%v): ", config.Vault))
-		fmt.Scanln(&vaultVal)
+		vaultVal = readAnswer()
 		config.Vault = strings.TrimSpace(vaultVal)
 	}
 
 	fmt.Print(fmt.Sprintf("  2. Update notifications? (%v) [y - for yes/n - for no]: ",
 		domain.LogicValEnum.FromValue(config.UpdateNotify).GetName()))
-	fmt.Scanln(&notifyVal)
+	notifyVal = readAnswer()
 	notify, err := domain.LogicValEnum.FromName(notifyVal)
 
 	if err == nil {
@@ -80,7 +99,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  3. Update HTTP timeout in seconds (%d) [1-30]: ", config.Timeout))
-	fmt.Scanln(&timeoutVal)
+	timeoutVal = readAnswer()
 	timeout, err := strconv.ParseInt(timeoutVal, 10, 64)
 
 	if err == nil && timeout >= 1 && timeout <= 30 {
@@ -88,7 +107,7 @@ func (ctrl *cobraCliControl) Configure() {
 	}
 
 	fmt.Print(fmt.Sprintf("  4. How often check for updates in days (%d) [0-365]: ", config.UpdatePeriod))
-	fmt.Scanln(&periodVal)
+	periodVal = readAnswer()
 	period, err := strconv.ParseInt(periodVal, 10, 64)
 
 	if err == nil && period >= 0 && period <= 365 {
@@ -360,7 +379,7 @@ func (ctrl *cobraCliControl) Update() {
 	fmt.Println(msg)
 	var permissionVal string
 	fmt.Print(fmt.Sprintf("Do you want to update now? (%v) [y - for yes/n - for no]: ", domain.LogicValEnum.No.GetName()))
-	fmt.Scanln(&permissionVal)
+	permissionVal = readAnswer()
 	permission, err := domain.LogicValEnum.FromName(permissionVal)
 
 	if err != nil || permission == domain.LogicValEnum.No {
-- 
2.43.0


From 46e3f09d913eb90c8589002023b8b659de7846ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:25 +0000
Subject: [PATCH 13/39] fix: compare versions number by number

---
 1pass-up/component/github/updater.go | 47 ++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 634b0a3..79a6bf0 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -47,6 +47,47 @@ func httpClient(timeout int64) http.Client {
 	return httpClient
 }
 
+func parseVersion(version string) ([]uint64, error) {
+	parts := strings.Split(strings.TrimPrefix(version, "v"), ".")
+	numbers := make([]uint64, len(parts))
+
+	for i, part := range parts {
+		number, err := strconv.ParseUint(part, 10, 64)
+
+		if err != nil {
+			return nil, err
+		}
+
+		numbers[i] = number
+	}
+
+	return numbers, nil
+}
+
+func compareVersions(a, b []uint64) int {
+	for i := 0; i < len(a) || i < len(b); i++ {
+		var x, y uint64
+
+		if i < len(a) {
+			x = a[i]
+		}
+
+		if i < len(b) {
+			y = b[i]
+		}
+
+		if x != y {
+			if x > y {
+				return 1
+			}
+
+			return -1
+		}
+	}
+
+	return 0
+}
+
 func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
 	httpClient := httpClient(timeout)
 	resp, err := httpClient.Get(domain.GithubReleases)
@@ -94,10 +135,10 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		}
 	}
 
-	currVer, _ := strconv.ParseInt(strings.ReplaceAll(domain.Version, ".", ""), 10, 64)
-	remoteVer, _ := strconv.ParseInt(strings.ReplaceAll(version, ".", ""), 10, 64)
+	currVer, _ := parseVersion(domain.Version)
+	remoteVer, err := parseVersion(version)
 
-	if remoteVer > currVer {
+	if err == nil && compareVersions(remoteVer, currVer) > 0 {
 		newer = true
 	}
 
-- 
2.43.0


From 9081676f3f693b09e93cd522b5a441a10cd97a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:30 +0000
Subject: [PATCH 14/39] fix: do not crash on unexpected list of releases

---
 1pass-up/component/github/updater.go | 38 +++++++++++++++-------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 79a6bf0..c752053 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -27,6 +27,15 @@ import (
 
 type githubUpdater struct{}
 
+type release struct {
+	Body    string `json:"body"`
+	TagName string `json:"tag_name"`
+	Assets  []struct {
+		Name        string `json:"name"`
+		DownloadUrl string `json:"browser_download_url"`
+	} `json:"assets"`
+}
+
 func NewGithubUpdater() *githubUpdater {
 	return &githubUpdater{}
 }
@@ -103,35 +112,28 @@ func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, erro
 		return nil, err
 	}
 
-	var bodyJson []interface{}
+	var releases []release
 
-	if err := json.Unmarshal(body, &bodyJson); err != nil {
+	if err := json.Unmarshal(body, &releases); err != nil {
 		return nil, err
 	}
 
-	if bodyJson == nil || bodyJson[0] == nil {
+	if len(releases) == 0 {
 		return nil, nil
 	}
 
-	latestJson := bodyJson[0].(map[string]interface{})
-	changelog := latestJson["body"].(string)
-	version := latestJson["tag_name"].(string)
+	latest := releases[0]
+	changelog := latest.Body
+	version := latest.TagName
 	newer := false
 	var archiveUrl string
 	var checksumUrl string
-	assets := latestJson["assets"].([]interface{})
-
-	if assets == nil {
-		return nil, nil
-	}
-
-	for _, assetJson := range assets {
-		asset := assetJson.(map[string]interface{})
 
-		if strings.Contains(asset["name"].(string), ".tar.gz") {
-			archiveUrl = asset["browser_download_url"].(string)
-		} else if strings.Contains(asset["name"].(string), ".md5") {
-			checksumUrl = asset["browser_download_url"].(string)
+	for _, asset := range latest.Assets {
+		if strings.Contains(asset.Name, ".tar.gz") {
+			archiveUrl = asset.DownloadUrl
+		} else if strings.Contains(asset.Name, ".md5") {
+			checksumUrl = asset.DownloadUrl
 		}
 	}
 
-- 
2.43.0


From 2995329261fe61226f3db5d116b570910e4c5a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:35 +0000
Subject: [PATCH 15/39] fix: apply timeout to whole update check

---
 1pass-up/component/github/updater.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index c752053..3bb6a39 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -41,12 +41,13 @@ func NewGithubUpdater() *githubUpdater {
 }
 
 func httpClient(timeout int64) http.Client {
+	tout := time.Duration(timeout) * time.Second
 	httpTransport := http.Transport{
 		Dial: func(network, address string) (net.Conn, error) {
-			tout := time.Duration(timeout) * time.Second
-
 			return net.DialTimeout(network, address, tout)
 		},
+		TLSHandshakeTimeout:   tout,
+		ResponseHeaderTimeout: tout,
 	}
 
 	httpClient := http.Client{
@@ -99,6 +100,7 @@ func compareVersions(a, b []uint64) int {
 
 func (up *githubUpdater) CheckForUpdate(timeout int64) (*domain.UpdateInfo, error) {
 	httpClient := httpClient(timeout)
+	httpClient.Timeout = time.Duration(timeout) * time.Second
 	resp, err := httpClient.Get(domain.GithubReleases)
 
 	if err != nil {
-- 
2.43.0


From 2a946f945d158615a4c4718922c6645c9ce80779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:40 +0000
Subject: [PATCH 16/39] fix: keep updated binary executable

---
 1pass-up/component/github/updater.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 3bb6a39..72785c7 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -238,6 +238,16 @@ func (up *githubUpdater) ReplaceBinary(src string) error {
 		return err
 	}
 
+	info, err := os.Stat(dst)
+
+	if err != nil {
+		return err
+	}
+
+	if err := os.Chmod(src, info.Mode()); err != nil {
+		return err
+	}
+
 	if err := os.Rename(src, dst); err != nil {
 		return err
 	}
-- 
2.43.0


From 96a7543b0d89efa95f3f29760c4d2db54ada901f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:45 +0000
Subject: [PATCH 17/39] fix: refuse archive entries outside of extraction
 directory

---
 1pass-core/core/domain/error.go      | 1 +
 1pass-up/component/github/updater.go | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/1pass-core/core/domain/error.go b/1pass-core/core/domain/error.go
index d629915..cea3b7b 100644
--- a/1pass-core/core/domain/error.go
+++ b/1pass-core/core/domain/error.go
@@ -9,6 +9,7 @@ import (
 )
 
 var (
+	ErrInvalidArchive  = errors.New("invalid archive")
 	ErrInvalidMd5      = errors.New("invalid MD5 checksum")
 	ErrInvalidHmac     = errors.New("invalid HMAC")
 	ErrInvalidPass     = errors.New("invalid password")
diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 72785c7..cc14c13 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -215,6 +215,10 @@ func (up *githubUpdater) ExtractArchive(src, dst string) error {
 
 		target := filepath.Join(dst, header.Name)
 
+		if !strings.HasPrefix(target, filepath.Clean(dst)+string(filepath.Separator)) {
+			return domain.ErrInvalidArchive
+		}
+
 		if header.Typeflag == tar.TypeReg {
 			file, err := os.Create(target)
 
-- 
2.43.0


From 47fb70c29d0a069a1a87477836184559c780ffb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:50 +0000
Subject: [PATCH 18/39] fix: report empty checksum file as invalid checksum

---
 1pass-up/component/github/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index cc14c13..081face 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -314,7 +314,7 @@ func (up *githubUpdater) ValidateChecksum(binary, file string) error {
 	bytes := hash.Sum(nil)
 	calculated := hex.EncodeToString(bytes)
 
-	if chunks[0] != calculated {
+	if len(chunks) == 0 || chunks[0] != calculated {
 		return domain.ErrInvalidMd5
 	}
 
-- 
2.43.0


From bd46dc5d590a0aff568d718a8c69b74c61ae01c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:55 +0000
Subject: [PATCH 19/39] fix: accept archives that contain directory entries

---
 1pass-up/component/github/updater.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 081face..68f9e9a 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -215,11 +215,11 @@ func (up *githubUpdater) ExtractArchive(src, dst string) error {
 
 		target := filepath.Join(dst, header.Name)
 
-		if !strings.HasPrefix(target, filepath.Clean(dst)+string(filepath.Separator)) {
-			return domain.ErrInvalidArchive
-		}
-
 		if header.Typeflag == tar.TypeReg {
+			if !strings.HasPrefix(target, filepath.Clean(dst)+string(filepath.Separator)) {
+				return domain.ErrInvalidArchive
+			}
+
 			file, err := os.Create(target)
 
 			if err != nil {
-- 
2.43.0


From 5176c4993fd29fac390a918db055f18a2570457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:59 +0000
Subject: [PATCH 20/39] fix: validate new binary against published checksum,
 not the one from archive

---
 1pass-core/core/service/updateservice.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/1pass-core/core/service/updateservice.go b/1pass-core/core/service/updateservice.go
index cee2047..b9895b8 100644
--- a/1pass-core/core/service/updateservice.go
+++ b/1pass-core/core/service/updateservice.go
@@ -88,11 +88,18 @@ func (s *dfltUpdateService) Update(timeout int, stage func(int)) error {
 
 		stage(4)
 
-		if err := s.updater.ExtractArchive(archive, domain.CacheDir); err != nil {
+		// Separate directory, archive must not be able to replace downloaded checksum.
+		extracted := filepath.Join(domain.CacheDir, "extracted")
+
+		if err := os.MkdirAll(extracted, 0700); err != nil {
+			return err
+		}
+
+		if err := s.updater.ExtractArchive(archive, extracted); err != nil {
 			return err
 		}
 
-		binary := filepath.Join(domain.CacheDir, domain.AppName)
+		binary := filepath.Join(extracted, domain.AppName)
 
 		stage(5)
 
-- 
2.43.0


From 41fed1d9c120358eccafcc0c7b2e75a590d8dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:25 +0000
Subject: [PATCH 21/39] fix: verify item keys and do not crash on damaged item
 data

---
 1pass-core/core/service/itemservice.go |  5 +++++
 1pass-core/core/service/keyservice.go  | 26 +++++++++++++++++++++++---
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 75750e7..1028ca2 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -49,6 +49,11 @@ func (s *dfltItemService) DecodeDetails(encoded *domain.RawItem, keys *domain.Ke
 	var detailsJson map[string]interface{}
 	detailsData, _ := base64.StdEncoding.DecodeString(encoded.Details)
 	itemKey, itemMac := s.keyService.ItemKeys(encoded, keys)
+
+	if itemKey == nil || itemMac == nil {
+		return nil
+	}
+
 	details, _ := s.keyService.DecodeOpdata(detailsData, itemKey, itemMac)
 	json.Unmarshal(details, &detailsJson)
 
diff --git a/1pass-core/core/service/keyservice.go b/1pass-core/core/service/keyservice.go
index 7bc3702..b7bbc0f 100644
--- a/1pass-core/core/service/keyservice.go
+++ b/1pass-core/core/service/keyservice.go
@@ -84,6 +84,11 @@ func (s *dfltKeyService) DecodeKeys(key, derivedKey, derivedMac []byte) ([]byte,
 }
 
 func (s *dfltKeyService) DecodeOpdata(cipherText, key, macKey []byte) ([]byte, error) {
+	// header (8 bytes), size (8 bytes), initialization vector (16 bytes) and HMAC (32 bytes)
+	if len(cipherText) < 64 {
+		return nil, domain.ErrInvalidHmac
+	}
+
 	data, mac := cipherText[:len(cipherText)-32], cipherText[len(cipherText)-32:]
 
 	if err := s.CheckHmac(data, macKey, mac); err != nil {
@@ -120,9 +125,24 @@ func (s *dfltKeyService) DerivedKeys(password string) ([]byte, []byte, error) {
 }
 
 func (s *dfltKeyService) ItemKeys(item *domain.RawItem, keys *domain.Keys) ([]byte, []byte) {
-	itemKeys, _ := base64.StdEncoding.DecodeString(item.Keys)
-	data := itemKeys[:len(itemKeys)-32]
-	plain, _ := s.DecodeData(keys.MasterKey, data[0:16], data[16:])
+	itemKeys, err := base64.StdEncoding.DecodeString(item.Keys)
+
+	// initialization vector (16 bytes), encryption key (32 bytes), MAC key (32 bytes) and HMAC (32 bytes)
+	if err != nil || len(itemKeys) != 112 {
+		return nil, nil
+	}
+
+	data, mac := itemKeys[:80], itemKeys[80:]
+
+	if err := s.CheckHmac(data, keys.MasterMac, mac); err != nil {
+		return nil, nil
+	}
+
+	plain, err := s.DecodeData(keys.MasterKey, data[0:16], data[16:])
+
+	if err != nil {
+		return nil, nil
+	}
 
 	return plain[0:32], plain[32:64]
 }
-- 
2.43.0


From 57d4f444f8b13145d0443612346cfbf03d473b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 22/39] fix: ignore wrongly typed settings instead of crashing

---
 1pass-parse/repo/file/configrepo.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index dae9323..d4d89b5 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -93,8 +93,8 @@ func (repo *fileConfigRepo) GetDefaultVault() string {
 func (repo *fileConfigRepo) GetTimeout() int {
 	timeout := 1
 
-	if repo.config["timeout"] != nil {
-		timeout = repo.config["timeout"].(int)
+	if value, ok := repo.config["timeout"].(int); ok {
+		timeout = value
 	}
 
 	return timeout
@@ -103,8 +103,8 @@ func (repo *fileConfigRepo) GetTimeout() int {
 func (repo *fileConfigRepo) GetUpdateNotification() bool {
 	notification := true
 
-	if repo.config["update-notification"] != nil {
-		notification = repo.config["update-notification"].(bool)
+	if value, ok := repo.config["update-notification"].(bool); ok {
+		notification = value
 	}
 
 	return notification
@@ -113,8 +113,8 @@ func (repo *fileConfigRepo) GetUpdateNotification() bool {
 func (repo *fileConfigRepo) GetUpdatePeriod() int {
 	period := 1
 
-	if repo.config["update-period"] != nil {
-		period = repo.config["update-period"].(int)
+	if value, ok := repo.config["update-period"].(int); ok {
+		period = value
 	}
 
 	return period
-- 
2.43.0


From 1ecdf1c7329dd5bdde0c5b43d72c2412a2bb64c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 23/39] fix: report damaged profile file instead of crashing

---
 1pass-parse/repo/file/profilerepo.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/profilerepo.go b/1pass-parse/repo/file/profilerepo.go
index aaa052e..2359918 100644
--- a/1pass-parse/repo/file/profilerepo.go
+++ b/1pass-parse/repo/file/profilerepo.go
@@ -45,8 +45,26 @@ func (repo *fileProfileRepo) LoadProfile(vault *domain.Vault) {
 			log.Fatalln(err)
 		}
 
-		if err := json.Unmarshal(file[12:len(file)-1], &repo.profileJson); err != nil {
+		// JSON content is wrapped with 'var profile=' (12 bytes) and ';' (1 byte)
+		if len(file) < 13 {
+			log.Fatalln("profile file is damaged")
+		}
+
+		var profileJson map[string]interface{}
+
+		if err := json.Unmarshal(file[12:len(file)-1], &profileJson); err != nil {
 			log.Fatalln(err)
 		}
+
+		_, iterations := profileJson["iterations"].(float64)
+		_, masterKey := profileJson["masterKey"].(string)
+		_, overviewKey := profileJson["overviewKey"].(string)
+		_, salt := profileJson["salt"].(string)
+
+		if !iterations || !masterKey || !overviewKey || !salt {
+			log.Fatalln("profile file is damaged")
+		}
+
+		repo.profileJson = profileJson
 	}
 }
-- 
2.43.0


From 094d9a35b3dbdd3fa3ec40eed692ea31af5dae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 24/39] fix: do not crash on damaged band files and incomplete
 item records

---
 1pass-parse/repo/file/itemrepo.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index c6bfb28..6dec933 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -123,6 +123,11 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 				log.Fatalln(err)
 			}
 
+			// JSON content is wrapped with 'ld({' (4 bytes) and '});' (3 bytes)
+			if len(file) < 7 {
+				log.Fatalln(bandFile + " is damaged")
+			}
+
 			if band := strings.TrimSpace(string(file[4 : len(file)-3])); band != "" {
 				itemsFile = itemsFile + band + ","
 			}
@@ -135,17 +140,18 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 		}
 
 		for uid, value := range itemsJson {
-			v := value.(map[string]interface{})
-			created := int64(v["created"].(float64))
-			updated := int64(v["updated"].(float64))
-			trashed := false
-
-			if v["trashed"] != nil {
-				trashed = v["trashed"].(bool)
-			}
-
-			item := domain.NewRawItem(v["category"].(string), v["d"].(string), v["hmac"].(string), v["k"].(string),
-				v["o"].(string), uid, created, updated, trashed)
+			// missing or damaged parts are left empty, so remaining items are still available
+			v, _ := value.(map[string]interface{})
+			category, _ := v["category"].(string)
+			details, _ := v["d"].(string)
+			hmac, _ := v["hmac"].(string)
+			keys, _ := v["k"].(string)
+			overview, _ := v["o"].(string)
+			created, _ := v["created"].(float64)
+			updated, _ := v["updated"].(float64)
+			trashed, _ := v["trashed"].(bool)
+
+			item := domain.NewRawItem(category, details, hmac, keys, overview, uid, int64(created), int64(updated), trashed)
 			items = append(items, item)
 		}
 	}
-- 
2.43.0


From f603e4e466660a0f38f6108c76aa1b89a060307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 25/39] fix: do not crash on unusual item contents

---
 1pass-core/core/domain/datatype.go     |  2 +-
 1pass-core/core/service/itemservice.go | 44 +++++++++++++++-----------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/1pass-core/core/domain/datatype.go b/1pass-core/core/domain/datatype.go
index 41d1602..2a4a2df 100644
--- a/1pass-core/core/domain/datatype.go
+++ b/1pass-core/core/domain/datatype.go
@@ -83,7 +83,7 @@ func (r *dataTypeRegistry) parseAddress(jsonValue map[string]interface{}) string
 	sort.Strings(keys)
 
 	for _, key := range keys {
-		val := jsonValue[key].(string)
+		val := fmt.Sprint(jsonValue[key])
 		val = strings.TrimSpace(val)
 		val = strings.ReplaceAll(val, "\n", " ")
 		formatted := fmt.Sprintf("\n  %v: %v", key, val)
diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 1028ca2..5952afc 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -29,7 +29,11 @@ func NewDfltItemService(keyService KeyService, itemRepo out.ItemRepo) *dfltItemS
 }
 
 // JSON numbers are decoded as floats, large ones must not be formatted with exponent.
-func formatNumber(value interface{}) string {
+func formatValue(value interface{}) string {
+	if value == nil {
+		return ""
+	}
+
 	if number, ok := value.(float64); ok {
 		return strconv.FormatFloat(number, 'f', -1, 64)
 	}
@@ -73,11 +77,12 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			sections := make([]*domain.ItemSection, 0)
 
 			if detailsJson["fields"] != nil {
-				fieldsJson := detailsJson["fields"].([]interface{})
+				fieldsJson, _ := detailsJson["fields"].([]interface{})
 				fields := make([]*domain.ItemField, 0)
 
 				for _, fieldJson := range fieldsJson {
-					field := s.ParseItemField(false, fieldJson.(map[string]interface{}))
+					data, _ := fieldJson.(map[string]interface{})
+					field := s.ParseItemField(false, data)
 
 					if field != nil {
 						fields = append(fields, field)
@@ -91,10 +96,11 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			}
 
 			if detailsJson["sections"] != nil {
-				sectionsJson := detailsJson["sections"].([]interface{})
+				sectionsJson, _ := detailsJson["sections"].([]interface{})
 
 				for _, sectionJson := range sectionsJson {
-					section := s.ParseItemSection(sectionJson.(map[string]interface{}))
+					data, _ := sectionJson.(map[string]interface{})
+					section := s.ParseItemSection(data)
 
 					if section != nil {
 						sections = append(sections, section)
@@ -107,15 +113,15 @@ func (s *dfltItemService) DecodeItems(vault *domain.Vault, keys *domain.Keys) {
 			var notes string
 
 			if overviewJson["title"] != nil {
-				title = overviewJson["title"].(string)
+				title = formatValue(overviewJson["title"])
 			}
 
 			if overviewJson["url"] != nil {
-				url = overviewJson["url"].(string)
+				url = formatValue(overviewJson["url"])
 			}
 
 			if detailsJson["notesPlain"] != nil {
-				notes = detailsJson["notesPlain"].(string)
+				notes = formatValue(detailsJson["notesPlain"])
 			}
 
 			if len(sections) == 0 {
@@ -169,8 +175,8 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 
 	if !fromSection {
 		if data["value"] != nil && data["name"] != nil {
-			value = data["value"].(string)
-			name := data["name"].(string)
+			value = formatValue(data["value"])
+			name := formatValue(data["name"])
 
 			if value != "" && name != "" {
 				field = domain.NewItemField(strings.Title(name), value)
@@ -178,19 +184,20 @@ func (s *dfltItemService) ParseItemField(fromSection bool, data map[string]inter
 		}
 	} else {
 		if data["v"] != nil {
-			dataType, err := domain.DataTypeEnum.FromName(data["k"].(string))
+			dataType, err := domain.DataTypeEnum.FromName(formatValue(data["k"]))
 
 			if err != nil {
-				value = data["v"].(string)
+				value = formatValue(data["v"])
 			} else {
 				if dataType == domain.DataTypeEnum.Address {
-					value = domain.DataTypeEnum.ParseValue(dataType, "", data["v"].(map[string]interface{}))
+					address, _ := data["v"].(map[string]interface{})
+					value = domain.DataTypeEnum.ParseValue(dataType, "", address)
 				} else {
-					value = domain.DataTypeEnum.ParseValue(dataType, formatNumber(data["v"]), nil)
+					value = domain.DataTypeEnum.ParseValue(dataType, formatValue(data["v"]), nil)
 				}
 			}
 
-			field = domain.NewItemField(strings.Title(data["t"].(string)), value)
+			field = domain.NewItemField(strings.Title(formatValue(data["t"])), value)
 		}
 	}
 
@@ -202,10 +209,11 @@ func (s *dfltItemService) ParseItemSection(data map[string]interface{}) *domain.
 	fields := make([]*domain.ItemField, 0)
 
 	if data["fields"] != nil {
-		fieldsData := data["fields"].([]interface{})
+		fieldsData, _ := data["fields"].([]interface{})
 
 		for _, fieldData := range fieldsData {
-			field := s.ParseItemField(true, fieldData.(map[string]interface{}))
+			fieldJson, _ := fieldData.(map[string]interface{})
+			field := s.ParseItemField(true, fieldJson)
 
 			if field != nil {
 				fields = append(fields, field)
@@ -218,7 +226,7 @@ func (s *dfltItemService) ParseItemSection(data map[string]interface{}) *domain.
 	}
 
 	if data["title"] != nil {
-		title = strings.Title(data["title"].(string))
+		title = strings.Title(formatValue(data["title"]))
 	}
 
 	if fields == nil && title == "" {
-- 
2.43.0


From ba1a5aa8e2db3bf7da05f0fa48cec69a5dcd565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 26/39] fix: validate opdata size before decoding

---
 1pass-core/core/service/keyservice.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/1pass-core/core/service/keyservice.go b/1pass-core/core/service/keyservice.go
index b7bbc0f..f586035 100644
--- a/1pass-core/core/service/keyservice.go
+++ b/1pass-core/core/service/keyservice.go
@@ -102,6 +102,11 @@ func (s *dfltKeyService) DecodeOpdata(cipherText, key, macKey []byte) ([]byte, e
 		return nil, err
 	}
 
+	// whole blocks only
+	if len(data)%aes.BlockSize != 0 || plainSize < 0 || plainSize > int64(len(data)-32) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	plain, err := s.DecodeData(key, data[16:32], data[32:])
 
 	if err != nil {
-- 
2.43.0


From bd256094c53ccaa57db22bbfb527e6d8a9df657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 27/39] fix: allow simultaneous saves of settings

---
 1pass-parse/repo/file/configrepo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index d4d89b5..a23194e 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -65,7 +65,8 @@ func replaceFile(path string, content []byte) error {
 		mode = info.Mode().Perm()
 	}
 
-	tmp := path + ".tmp"
+	// other running instances can save at the same time
+	tmp := fmt.Sprintf("%v.%v.tmp", path, os.Getpid())
 
 	if err := ioutil.WriteFile(tmp, content, mode); err != nil {
 		os.Remove(tmp)
-- 
2.43.0


From 3c8cfba3645c07a6f54e66555bfd50d22773ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 28/39] fix: keep validated binary away from other running
 update

---
 1pass-core/core/service/updateservice.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/1pass-core/core/service/updateservice.go b/1pass-core/core/service/updateservice.go
index b9895b8..6913961 100644
--- a/1pass-core/core/service/updateservice.go
+++ b/1pass-core/core/service/updateservice.go
@@ -5,6 +5,7 @@
 package service
 
 import (
+	"io/ioutil"
 	"os"
 	"path/filepath"
 
@@ -88,10 +89,11 @@ func (s *dfltUpdateService) Update(timeout int, stage func(int)) error {
 
 		stage(4)
 
-		// Separate directory, archive must not be able to replace downloaded checksum.
-		extracted := filepath.Join(domain.CacheDir, "extracted")
+		// Own directory, neither archive (downloaded checksum) nor other running update (validated binary) must be
+		// able to replace files.
+		extracted, err := ioutil.TempDir(domain.CacheDir, "extracted")
 
-		if err := os.MkdirAll(extracted, 0700); err != nil {
+		if err != nil {
 			return err
 		}
 
-- 
2.43.0


From 39ea53fbab49d2bfe75d1870208f51dcf050f94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:07 +0000
Subject: [PATCH 29/39] fix: read the profile again on every unlock

The key material was read once per process: after the master password of
the vault changed on disk, a running GUI kept accepting the old password
and refused the new one.
---
 1pass-core/core/facade/vaultfacade.go |  5 ++++
 1pass-parse/repo/file/profilerepo.go  | 42 +++++++++++++--------------
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/1pass-core/core/facade/vaultfacade.go b/1pass-core/core/facade/vaultfacade.go
index cc9951a..5d906a9 100644
--- a/1pass-core/core/facade/vaultfacade.go
+++ b/1pass-core/core/facade/vaultfacade.go
@@ -55,6 +55,11 @@ func (f *dfltVaultFacade) Lock() {
 }
 
 func (f *dfltVaultFacade) Unlock(vault *domain.Vault, password string) error {
+	// profile could have changed since it was read
+	if err := f.vaultService.ValidateVault(vault); err != nil {
+		return err
+	}
+
 	derivedKey, derivedMac, err := f.keyService.DerivedKeys(password)
 
 	if err != nil {
diff --git a/1pass-parse/repo/file/profilerepo.go b/1pass-parse/repo/file/profilerepo.go
index 2359918..8c9e51a 100644
--- a/1pass-parse/repo/file/profilerepo.go
+++ b/1pass-parse/repo/file/profilerepo.go
@@ -38,33 +38,31 @@ func (repo *fileProfileRepo) GetSalt() string {
 }
 
 func (repo *fileProfileRepo) LoadProfile(vault *domain.Vault) {
-	if repo.profileJson == nil {
-		file, err := ioutil.ReadFile(filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile))
+	file, err := ioutil.ReadFile(filepath.Join(vault.Path, domain.ProfileDir, domain.ProfileFile))
 
-		if err != nil {
-			log.Fatalln(err)
-		}
-
-		// JSON content is wrapped with 'var profile=' (12 bytes) and ';' (1 byte)
-		if len(file) < 13 {
-			log.Fatalln("profile file is damaged")
-		}
+	if err != nil {
+		log.Fatalln(err)
+	}
 
-		var profileJson map[string]interface{}
+	// JSON content is wrapped with 'var profile=' (12 bytes) and ';' (1 byte)
+	if len(file) < 13 {
+		log.Fatalln("profile file is damaged")
+	}
 
-		if err := json.Unmarshal(file[12:len(file)-1], &profileJson); err != nil {
-			log.Fatalln(err)
-		}
+	var profileJson map[string]interface{}
 
-		_, iterations := profileJson["iterations"].(float64)
-		_, masterKey := profileJson["masterKey"].(string)
-		_, overviewKey := profileJson["overviewKey"].(string)
-		_, salt := profileJson["salt"].(string)
+	if err := json.Unmarshal(file[12:len(file)-1], &profileJson); err != nil {
+		log.Fatalln(err)
+	}
 
-		if !iterations || !masterKey || !overviewKey || !salt {
-			log.Fatalln("profile file is damaged")
-		}
+	_, iterations := profileJson["iterations"].(float64)
+	_, masterKey := profileJson["masterKey"].(string)
+	_, overviewKey := profileJson["overviewKey"].(string)
+	_, salt := profileJson["salt"].(string)
 
-		repo.profileJson = profileJson
+	if !iterations || !masterKey || !overviewKey || !salt {
+		log.Fatalln("profile file is damaged")
 	}
+
+	repo.profileJson = profileJson
 }
-- 
2.43.0


From 89d2e6a70992bed01660e3d0b83bb4aafc9bd5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:06 +0000
Subject: [PATCH 30/39] fix: keep GUI working in small and resized terminals

---
 1pass-app/gui/1passwidget.go   | 60 ++++++++++++++++++++++++++++++++--
 1pass-app/gui/detailswidget.go |  2 +-
 1pass-app/gui/errdialog.go     |  2 +-
 1pass-app/gui/gocui.go         | 37 +++++++++++++++++++++
 1pass-app/gui/helpwidget.go    |  2 +-
 1pass-app/gui/itemswidget.go   | 10 +++++-
 1pass-app/gui/passprompt.go    |  2 +-
 1pass-app/gui/versionwidget.go |  2 +-
 8 files changed, 109 insertions(+), 8 deletions(-)

diff --git a/1pass-app/gui/1passwidget.go b/1pass-app/gui/1passwidget.go
index e54ba53..2d45757 100644
--- a/1pass-app/gui/1passwidget.go
+++ b/1pass-app/gui/1passwidget.go
@@ -22,6 +22,7 @@ Open: ENTER`
 
 type onepassWidget struct {
 	currIdx     int
+	width       int
 	trashedIdx  int
 	name        string
 	title       string
@@ -133,6 +134,58 @@ func (ow *onepassWidget) promptForPassword(ui *gocui.Gui) error {
 	return nil
 }
 
+// Categories are centered, so they have to be written again when width of terminal changes.
+func (ow *onepassWidget) redraw(ui *gocui.Gui, view *gocui.View) error {
+	if ow.guiControl.IsVaultUnlocked() {
+		idx := ow.currIdx
+		ow.categories = make([]*domain.ItemCategory, 0)
+		view.Clear()
+
+		if err := ow.update(ui); err != nil {
+			return err
+		}
+
+		ow.currIdx = idx
+	}
+
+	return nil
+}
+
+// Opened widgets have to follow size of terminal.
+func (ow *onepassWidget) resize(ui *gocui.Gui, view *gocui.View) error {
+	if err := followCursor(view); err != nil {
+		return err
+	}
+
+	if maxX, _ := screenSize(ui); maxX != ow.width {
+		ow.width = maxX
+
+		if err := ow.redraw(ui, view); err != nil {
+			return err
+		}
+	}
+
+	if _, err := ui.View(ow.itemsWidget.name); err == nil {
+		if err := ow.itemsWidget.Layout(ui); err != nil {
+			return err
+		}
+	}
+
+	if _, err := ui.View(ow.errDialog.name); err == nil {
+		if err := ow.errDialog.Layout(ui); err != nil {
+			return err
+		}
+	}
+
+	if _, err := ui.View(ow.passPrompt.name); err == nil {
+		if err := ow.passPrompt.Layout(ui); err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 func (ow *onepassWidget) resetCursor(view *gocui.View) error {
 	if view != nil {
 		ox, _ := view.Origin()
@@ -205,7 +258,7 @@ func (ow *onepassWidget) showItems(ui *gocui.Gui, view *gocui.View) error {
 
 func (ow *onepassWidget) update(ui *gocui.Gui) error {
 	if ow.guiControl.IsVaultUnlocked() {
-		maxX, _ := ui.Size()
+		maxX, _ := screenSize(ui)
 		view, err := ui.View(ow.name)
 
 		if err != nil {
@@ -307,7 +360,7 @@ func (ow *onepassWidget) Keybindings(ui *gocui.Gui) error {
 }
 
 func (ow *onepassWidget) Layout(ui *gocui.Gui) error {
-	maxX, maxY := ui.Size()
+	maxX, maxY := screenSize(ui)
 
 	if view, err := ui.SetView(ow.name, 0, 3, maxX-1, maxY-4); err != nil {
 		if err != gocui.ErrUnknownView {
@@ -316,6 +369,7 @@ func (ow *onepassWidget) Layout(ui *gocui.Gui) error {
 
 		ui.Highlight = false
 
+		ow.width = maxX
 		view.Title = ow.title
 		view.Highlight = true
 		view.SelBgColor = gocui.ColorBlue
@@ -333,6 +387,8 @@ func (ow *onepassWidget) Layout(ui *gocui.Gui) error {
 		if err := ow.helpWidget.update(ui); err != nil {
 			return err
 		}
+	} else if err := ow.resize(ui, view); err != nil {
+		return err
 	}
 
 	return nil
diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index b927a7c..f7cc91f 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -253,7 +253,7 @@ func (dw *detailsWidget) Keybindings(ui *gocui.Gui) error {
 }
 
 func (dw *detailsWidget) Layout(ui *gocui.Gui) error {
-	maxX, maxY := ui.Size()
+	maxX, maxY := screenSize(ui)
 
 	if view, err := ui.SetView(dw.name, int(0.5*float32(maxX-2)+1), 4, maxX-2, maxY-5); err != nil {
 		if err != gocui.ErrUnknownView {
diff --git a/1pass-app/gui/errdialog.go b/1pass-app/gui/errdialog.go
index 63612de..cc2f1ae 100644
--- a/1pass-app/gui/errdialog.go
+++ b/1pass-app/gui/errdialog.go
@@ -34,7 +34,7 @@ func (ed *errorDialog) Keybindings(ui *gocui.Gui) error {
 }
 
 func (ed *errorDialog) Layout(ui *gocui.Gui) error {
-	maxX, maxY := ui.Size()
+	maxX, maxY := screenSize(ui)
 
 	if view, err := ui.SetView(ed.name, maxX/2-30, maxY/2-1, maxX/2+30, maxY/2+1); err != nil {
 		if err != gocui.ErrUnknownView {
diff --git a/1pass-app/gui/gocui.go b/1pass-app/gui/gocui.go
index ddaefd2..751ef69 100644
--- a/1pass-app/gui/gocui.go
+++ b/1pass-app/gui/gocui.go
@@ -13,6 +13,11 @@ import (
 	"github.com/mashmb/1pass/1pass-core/port/in"
 )
 
+const (
+	minWidth  int = 20
+	minHeight int = 12
+)
+
 type GocuiGui struct {
 	version    string
 	guiControl in.GuiControl
@@ -25,6 +30,38 @@ func NewGocuiGui(version string, guiControl in.GuiControl) *GocuiGui {
 	}
 }
 
+// Widgets have to keep proper size, even if terminal has no room for them.
+func screenSize(ui *gocui.Gui) (int, int) {
+	maxX, maxY := ui.Size()
+
+	if maxX < minWidth {
+		maxX = minWidth
+	}
+
+	if maxY < minHeight {
+		maxY = minHeight
+	}
+
+	return maxX, maxY
+}
+
+// Cursor that would be left below bottom of the resized view is kept on the same line by scrolling.
+func followCursor(view *gocui.View) error {
+	_, height := view.Size()
+	ox, oy := view.Origin()
+	cx, cy := view.Cursor()
+
+	if cy >= height {
+		if err := view.SetOrigin(ox, oy+cy-height+1); err != nil {
+			return err
+		}
+
+		return view.SetCursor(cx, height-1)
+	}
+
+	return nil
+}
+
 func (gui *GocuiGui) quit(_ *gocui.Gui, _ *gocui.View) error {
 	return gocui.ErrQuit
 }
diff --git a/1pass-app/gui/helpwidget.go b/1pass-app/gui/helpwidget.go
index 9d9fa73..8f9a139 100644
--- a/1pass-app/gui/helpwidget.go
+++ b/1pass-app/gui/helpwidget.go
@@ -62,7 +62,7 @@ func (hw *helpWidget) update(ui *gocui.Gui) error {
 }
 
 func (hw *helpWidget) Layout(ui *gocui.Gui) error {
-	maxX, maxY := ui.Size()
+	maxX, maxY := screenSize(ui)
 
 	if view, err := ui.SetView(hw.name, 0, maxY-3, maxX-1, maxY-1); err != nil {
 		if err != gocui.ErrUnknownView {
diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index 04457a8..5687d2a 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -253,7 +253,7 @@ func (iw *itemsWidget) Keybindings(ui *gocui.Gui) error {
 }
 
 func (iw *itemsWidget) Layout(ui *gocui.Gui) error {
-	maxX, maxY := ui.Size()
+	maxX, maxY := screenSize(ui)
 
 	if view, err := ui.SetView(iw.name, 1, 4, int(0.5*float32(maxX-2)), maxY-5); err != nil {
 		if err != gocui.ErrUnknownView {
@@ -283,6 +283,14 @@ func (iw *itemsWidget) Layout(ui *gocui.Gui) error {
 		if err := iw.helpWidget.update(ui); err != nil {
 			return err
 		}
+	} else {
+		if err := followCursor(view); err != nil {
+			return err
+		}
+
+		if err := iw.detailsWidget.Layout(ui); err != nil {
+			return err
+		}
 	}
 
 	return nil
diff --git a/1pass-app/gui/passprompt.go b/1pass-app/gui/passprompt.go
index 4532fb9..9089260 100644
--- a/1pass-app/gui/passprompt.go
+++ b/1pass-app/gui/passprompt.go
@@ -31,7 +31,7 @@ func (pp *passwordPrompt) Keybindings(ui *gocui.Gui) error {
 }
 
 func (pp *passwordPrompt) Layout(ui *gocui.Gui) error {
-	maxX, maxY := ui.Size()
+	maxX, maxY := screenSize(ui)
 
 	if view, err := ui.SetView(pp.name, maxX/2-30, maxY/2-1, maxX/2+30, maxY/2+1); err != nil {
 		if err != gocui.ErrUnknownView {
diff --git a/1pass-app/gui/versionwidget.go b/1pass-app/gui/versionwidget.go
index e75ea4a..dc8d833 100644
--- a/1pass-app/gui/versionwidget.go
+++ b/1pass-app/gui/versionwidget.go
@@ -53,7 +53,7 @@ func (vw *verWidget) update(ui *gocui.Gui) {
 }
 
 func (vw *verWidget) Layout(ui *gocui.Gui) error {
-	maxX, _ := ui.Size()
+	maxX, _ := screenSize(ui)
 
 	if view, err := ui.SetView(vw.name, 0, 0, maxX-1, 2); err != nil {
 		if err != gocui.ErrUnknownView {
-- 
2.43.0


From 452c1543a6cf775301cb4eb66e70bb8cba3d2d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:11 +0000
Subject: [PATCH 31/39] fix: restore terminal when password prompt or GUI is
 interrupted

---
 1pass-app/gui/gocui.go                 | 15 ++++++++++++
 1pass-term/control/cobra/clicontrol.go | 33 +++++++++++++++++++++++---
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/1pass-app/gui/gocui.go b/1pass-app/gui/gocui.go
index 751ef69..a8641b2 100644
--- a/1pass-app/gui/gocui.go
+++ b/1pass-app/gui/gocui.go
@@ -8,6 +8,8 @@ import (
 	"fmt"
 	"log"
 	"os"
+	"os/signal"
+	"syscall"
 
 	"github.com/jroimartin/gocui"
 	"github.com/mashmb/1pass/1pass-core/port/in"
@@ -74,6 +76,8 @@ func (gui *GocuiGui) Run(vaultPath string) {
 		os.Exit(1)
 	}
 
+	signals := make(chan os.Signal, 1)
+	signal.Notify(signals, os.Interrupt, syscall.SIGTERM)
 	ui, err := gocui.NewGui(gocui.OutputNormal)
 
 	if err != nil {
@@ -87,14 +91,25 @@ func (gui *GocuiGui) Run(vaultPath string) {
 	ui.SetManager(version, help, onepass)
 
 	if err := onepass.Keybindings(ui); err != nil {
+		ui.Close()
 		log.Fatalln(err)
 	}
 
 	if err := ui.SetKeybinding("", gocui.KeyCtrlQ, gocui.ModNone, gui.quit); err != nil {
+		ui.Close()
 		log.Fatalln(err)
 	}
 
+	go func() {
+		<-signals
+
+		ui.Update(func(_ *gocui.Gui) error {
+			return gocui.ErrQuit
+		})
+	}()
+
 	if err := ui.MainLoop(); err != nil && err != gocui.ErrQuit {
+		ui.Close()
 		log.Fatalln(err)
 	}
 }
diff --git a/1pass-term/control/cobra/clicontrol.go b/1pass-term/control/cobra/clicontrol.go
index d3e4af3..49e1dba 100644
--- a/1pass-term/control/cobra/clicontrol.go
+++ b/1pass-term/control/cobra/clicontrol.go
@@ -7,6 +7,7 @@ package cobra
 import (
 	"fmt"
 	"os"
+	"os/signal"
 	"sort"
 	"strconv"
 	"strings"
@@ -53,6 +54,32 @@ func readAnswer() string {
 	return strings.TrimSpace(string(answer))
 }
 
+// Terminal does not echo while password is read, so it has to be restored if the prompt is interrupted.
+func readPassword() ([]byte, error) {
+	fd := int(syscall.Stdin)
+
+	if state, err := term.GetState(fd); err == nil {
+		signals := make(chan os.Signal, 1)
+		done := make(chan struct{})
+		signal.Notify(signals, os.Interrupt, syscall.SIGTERM)
+
+		defer close(done)
+		defer signal.Stop(signals)
+
+		go func() {
+			select {
+			case <-signals:
+				term.Restore(fd, state)
+				fmt.Println()
+				os.Exit(1)
+			case <-done:
+			}
+		}()
+	}
+
+	return term.ReadPassword(fd)
+}
+
 func (ctrl *cobraCliControl) CheckForUpdate() {
 	config := ctrl.configFacade.GetConfig()
 
@@ -165,7 +192,7 @@ func (ctrl *cobraCliControl) GetItemDetails(vaultPath, uid string, trashed bool)
 	}
 
 	fmt.Println("Password:")
-	password, err := term.ReadPassword(int(syscall.Stdin))
+	password, err := readPassword()
 	err = ctrl.vaultFacade.Unlock(vault, string(password))
 
 	if err != nil {
@@ -246,7 +273,7 @@ func (ctrl *cobraCliControl) GetItemOverview(vaultPath, uid string, trashed bool
 	}
 
 	fmt.Println("Password:")
-	password, err := term.ReadPassword(int(syscall.Stdin))
+	password, err := readPassword()
 	err = ctrl.vaultFacade.Unlock(vault, string(password))
 
 	if err != nil {
@@ -326,7 +353,7 @@ func (ctrl *cobraCliControl) GetItems(vaultPath, category, title string, trashed
 	}
 
 	fmt.Println("Password:")
-	password, err := term.ReadPassword(int(syscall.Stdin))
+	password, err := readPassword()
 	err = ctrl.vaultFacade.Unlock(vault, string(password))
 
 	if err != nil {
-- 
2.43.0


From 979270d09746c17e4cd132992788f81fe929c16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:07 +0000
Subject: [PATCH 32/39] fix: restore terminal when GUI ends because of damaged
 vault

---
 1pass-app/gui/gocui.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/1pass-app/gui/gocui.go b/1pass-app/gui/gocui.go
index a8641b2..2453610 100644
--- a/1pass-app/gui/gocui.go
+++ b/1pass-app/gui/gocui.go
@@ -32,6 +32,17 @@ func NewGocuiGui(version string, guiControl in.GuiControl) *GocuiGui {
 	}
 }
 
+// Only fatal errors are logged, terminal has to be restored before application ends.
+type fatalWriter struct {
+	ui *gocui.Gui
+}
+
+func (writer *fatalWriter) Write(message []byte) (int, error) {
+	writer.ui.Close()
+
+	return os.Stderr.Write(message)
+}
+
 // Widgets have to keep proper size, even if terminal has no room for them.
 func screenSize(ui *gocui.Gui) (int, int) {
 	maxX, maxY := ui.Size()
@@ -85,18 +96,17 @@ func (gui *GocuiGui) Run(vaultPath string) {
 	}
 
 	defer ui.Close()
+	log.SetOutput(&fatalWriter{ui: ui})
 	version := newVerWidget(gui.version, gui.guiControl)
 	help := newHelpWidget()
 	onepass := newOnepassWidget(help, vault, gui.guiControl)
 	ui.SetManager(version, help, onepass)
 
 	if err := onepass.Keybindings(ui); err != nil {
-		ui.Close()
 		log.Fatalln(err)
 	}
 
 	if err := ui.SetKeybinding("", gocui.KeyCtrlQ, gocui.ModNone, gui.quit); err != nil {
-		ui.Close()
 		log.Fatalln(err)
 	}
 
@@ -109,7 +119,6 @@ func (gui *GocuiGui) Run(vaultPath string) {
 	}()
 
 	if err := ui.MainLoop(); err != nil && err != gocui.ErrQuit {
-		ui.Close()
 		log.Fatalln(err)
 	}
 }
-- 
2.43.0


From fc43a00acb4684b748b73a3d5dfe6a0c11d546ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:29 +0000
Subject: [PATCH 33/39] fix: exit with error on invalid command line

---
 1pass-app/cli/cobra.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/1pass-app/cli/cobra.go b/1pass-app/cli/cobra.go
index f623b27..6551389 100644
--- a/1pass-app/cli/cobra.go
+++ b/1pass-app/cli/cobra.go
@@ -6,6 +6,7 @@ package cli
 
 import (
 	"fmt"
+	"os"
 
 	"github.com/mashmb/1pass/1pass-app/gui"
 	"github.com/mashmb/1pass/1pass-core/port/in"
@@ -153,5 +154,6 @@ func (cli *cobraCli) Run() {
 
 	if err := rootCmd.Execute(); err != nil {
 		fmt.Println(err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From daa18ffd864360356830f1c25c71691db853bef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:22 +0000
Subject: [PATCH 34/39] fix: never use cache directory made by other user

---
 1pass-core/core/service/updateservice.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/1pass-core/core/service/updateservice.go b/1pass-core/core/service/updateservice.go
index 6913961..d7bf4b5 100644
--- a/1pass-core/core/service/updateservice.go
+++ b/1pass-core/core/service/updateservice.go
@@ -69,7 +69,8 @@ func (s *dfltUpdateService) Update(timeout int, stage func(int)) error {
 			return err
 		}
 
-		if err := os.MkdirAll(domain.CacheDir, 0700); err != nil {
+		// Shared place, directory (or link) made meanwhile by other user must not be used.
+		if err := os.Mkdir(domain.CacheDir, 0700); err != nil {
 			return err
 		}
 
-- 
2.43.0


From dfa19686a44a0bc7d76172ce68779bd8e1e8bfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 35/39] fix: never show vault that cannot be listed as empty

---
 1pass-parse/repo/file/itemrepo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 6dec933..037bbdc 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -28,7 +28,7 @@ func findBandFiles(profileDir string) []string {
 	files, err := ioutil.ReadDir(profileDir)
 
 	if err != nil {
-		return bandFiles
+		log.Fatalln(err)
 	}
 
 	for _, file := range files {
-- 
2.43.0


From d2a2815b7b4fee90b3aac422f0cab7507a0d4da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:42 +0000
Subject: [PATCH 36/39] fix: never accept band file that was cut short

---
 1pass-parse/repo/file/itemrepo.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/1pass-parse/repo/file/itemrepo.go b/1pass-parse/repo/file/itemrepo.go
index 037bbdc..d9a31e5 100644
--- a/1pass-parse/repo/file/itemrepo.go
+++ b/1pass-parse/repo/file/itemrepo.go
@@ -123,12 +123,14 @@ func (repo *fileItemRepo) LoadItems(vault *domain.Vault) []*domain.RawItem {
 				log.Fatalln(err)
 			}
 
-			// JSON content is wrapped with 'ld({' (4 bytes) and '});' (3 bytes)
-			if len(file) < 7 {
+			content := string(file)
+
+			// JSON content is wrapped with 'ld({' and '});', band that was cut short could be valid without last characters
+			if len(content) < 7 || !strings.HasPrefix(content, "ld({") || !strings.HasSuffix(content, "});") {
 				log.Fatalln(bandFile + " is damaged")
 			}
 
-			if band := strings.TrimSpace(string(file[4 : len(file)-3])); band != "" {
+			if band := strings.TrimSpace(content[4 : len(content)-3]); band != "" {
 				itemsFile = itemsFile + band + ","
 			}
 		}
-- 
2.43.0


From b58a13c16221eebdf05004c6bfc15c81ff20c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:47 +0000
Subject: [PATCH 37/39] fix: settings and binary survive power failure

---
 1pass-parse/repo/file/configrepo.go  | 21 ++++++++++++++++++++-
 1pass-up/component/github/updater.go | 17 +++++++++++++++++
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/1pass-parse/repo/file/configrepo.go b/1pass-parse/repo/file/configrepo.go
index a23194e..3c0a81d 100644
--- a/1pass-parse/repo/file/configrepo.go
+++ b/1pass-parse/repo/file/configrepo.go
@@ -68,7 +68,7 @@ func replaceFile(path string, content []byte) error {
 	// other running instances can save at the same time
 	tmp := fmt.Sprintf("%v.%v.tmp", path, os.Getpid())
 
-	if err := ioutil.WriteFile(tmp, content, mode); err != nil {
+	if err := writeFile(tmp, content, mode); err != nil {
 		os.Remove(tmp)
 
 		return err
@@ -77,6 +77,25 @@ func replaceFile(path string, content []byte) error {
 	return os.Rename(tmp, path)
 }
 
+// Content must be on disk before file is renamed, otherwise power failure could leave empty file.
+func writeFile(path string, content []byte, mode os.FileMode) error {
+	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
+
+	if err != nil {
+		return err
+	}
+
+	if _, err = file.Write(content); err == nil {
+		err = file.Sync()
+	}
+
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+
+	return err
+}
+
 func (repo *fileConfigRepo) IsAvailable() bool {
 	return len(repo.config) > 0
 }
diff --git a/1pass-up/component/github/updater.go b/1pass-up/component/github/updater.go
index 68f9e9a..2c75411 100644
--- a/1pass-up/component/github/updater.go
+++ b/1pass-up/component/github/updater.go
@@ -235,6 +235,19 @@ func (up *githubUpdater) ExtractArchive(src, dst string) error {
 	}
 }
 
+// Content must be on disk before file is renamed, otherwise power failure could leave empty file.
+func syncFile(path string) error {
+	file, err := os.Open(path)
+
+	if err != nil {
+		return err
+	}
+
+	defer file.Close()
+
+	return file.Sync()
+}
+
 func (up *githubUpdater) ReplaceBinary(src string) error {
 	dst, err := os.Executable()
 
@@ -248,6 +261,10 @@ func (up *githubUpdater) ReplaceBinary(src string) error {
 		return err
 	}
 
+	if err := syncFile(src); err != nil {
+		return err
+	}
+
 	if err := os.Chmod(src, info.Mode()); err != nil {
 		return err
 	}
-- 
2.43.0


From 76f0d76d893c756c007cfc648f9beac1f1c2baf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:06 +0000
Subject: [PATCH 38/39] fix: list items of same title in same order on every
 run

---
 1pass-core/core/service/itemservice.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/1pass-core/core/service/itemservice.go b/1pass-core/core/service/itemservice.go
index 5952afc..2fe0787 100644
--- a/1pass-core/core/service/itemservice.go
+++ b/1pass-core/core/service/itemservice.go
@@ -163,7 +163,11 @@ func (s *dfltItemService) GetSimpleItems(category *domain.ItemCategory, title st
 			return items[i].Category.GetCode() < items[j].Category.GetCode()
 		}
 
-		return items[i].Title < items[j].Title
+		if items[i].Title != items[j].Title {
+			return items[i].Title < items[j].Title
+		}
+
+		return items[i].Uid < items[j].Uid
 	})
 
 	return items
-- 
2.43.0


From 7c352e63cf673ce0cc0ac50b49aa2a11a4905f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:47 +0000
Subject: [PATCH 39/39] fix: show texts of items on the screen completely

---
 1pass-app/gui/detailswidget.go |  8 ++++---
 1pass-app/gui/gocui.go         | 41 ++++++++++++++++++++++++++++++++++
 1pass-app/gui/itemswidget.go   |  3 ++-
 3 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/1pass-app/gui/detailswidget.go b/1pass-app/gui/detailswidget.go
index f7cc91f..4c8fa5d 100644
--- a/1pass-app/gui/detailswidget.go
+++ b/1pass-app/gui/detailswidget.go
@@ -118,18 +118,20 @@ func (dw *detailsWidget) toggleDetails(ui *gocui.Gui, view *gocui.View) error {
 }
 
 func (dw *detailsWidget) update(overview bool, ui *gocui.Gui) error {
-	view, err := ui.View(dw.name)
+	pane, err := ui.View(dw.name)
 
 	if err != nil {
 		return err
 	}
 
-	view.Clear()
+	pane.Clear()
 
-	if err := dw.resetOrigin(view); err != nil {
+	if err := dw.resetOrigin(pane); err != nil {
 		return err
 	}
 
+	view := &textWriter{view: pane}
+
 	if dw.item != nil {
 		fmt.Fprint(view, fmt.Sprintf("%v\n", dw.item.Category.GetName()))
 		fmt.Fprint(view, "------------------------------\n")
diff --git a/1pass-app/gui/gocui.go b/1pass-app/gui/gocui.go
index 2453610..03871e1 100644
--- a/1pass-app/gui/gocui.go
+++ b/1pass-app/gui/gocui.go
@@ -9,8 +9,11 @@ import (
 	"log"
 	"os"
 	"os/signal"
+	"strings"
 	"syscall"
+	"unicode"
 
+	"github.com/jedib0t/go-pretty/v6/text"
 	"github.com/jroimartin/gocui"
 	"github.com/mashmb/1pass/1pass-core/port/in"
 )
@@ -58,6 +61,44 @@ func screenSize(ui *gocui.Gui) (int, int) {
 	return maxX, maxY
 }
 
+// Character that takes two cells of the screen.
+func isWide(char rune) bool {
+	return text.RuneWidth(char) == 2 && (text.RuneWidth('─') == 1 || char >= 0x2E80 && !unicode.Is(unicode.Co, char))
+}
+
+// Control characters are not commands for the screen and second cell of wide character can not hold the next one.
+func screenText(value string) string {
+	var screen strings.Builder
+	value = strings.ReplaceAll(strings.ReplaceAll(value, "\r\n", "\n"), "\r", "\n")
+
+	for _, char := range value {
+		if char != '\n' && unicode.IsControl(char) {
+			char = ' '
+		}
+
+		screen.WriteRune(char)
+
+		if isWide(char) {
+			screen.WriteRune(' ')
+		}
+	}
+
+	return screen.String()
+}
+
+// Text that was not prepared for the screen is not displayed properly.
+type textWriter struct {
+	view *gocui.View
+}
+
+func (writer *textWriter) Write(message []byte) (int, error) {
+	if _, err := writer.view.Write([]byte(screenText(string(message)))); err != nil {
+		return 0, err
+	}
+
+	return len(message), nil
+}
+
 // Cursor that would be left below bottom of the resized view is kept on the same line by scrolling.
 func followCursor(view *gocui.View) error {
 	_, height := view.Size()
diff --git a/1pass-app/gui/itemswidget.go b/1pass-app/gui/itemswidget.go
index 5687d2a..a71f581 100644
--- a/1pass-app/gui/itemswidget.go
+++ b/1pass-app/gui/itemswidget.go
@@ -6,6 +6,7 @@ package gui
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/jroimartin/gocui"
 	"github.com/mashmb/1pass/1pass-core/core/domain"
@@ -194,7 +195,7 @@ func (iw *itemsWidget) update(ui *gocui.Gui) error {
 				title = "<NO TITLE>"
 			}
 
-			position := fmt.Sprintf("%v\n", title)
+			position := fmt.Sprintf("%v\n", strings.ReplaceAll(screenText(title), "\n", " "))
 			fmt.Fprint(view, position)
 		}
 
-- 
2.43.0

