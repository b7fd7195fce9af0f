// Code generated by gen.sh; DO NOT EDIT.

package h

func init() {
	All["C01Angular"] = C01Angular
	All["C01Builder"] = C01Builder
	All["C01Dot"] = C01Dot
	All["C01Growth"] = C01Growth
	All["C01Long"] = C01Long
	All["C01Many"] = C01Many
	All["C01Own"] = C01Own
	All["C01Scale"] = C01Scale
	All["C01Sequences"] = C01Sequences
	All["C01Wide"] = C01Wide
	All["C02Forest12"] = C02Forest12
	All["C02Forest4"] = C02Forest4
	All["C02Forest7"] = C02Forest7
	All["C02ForestAngular"] = C02ForestAngular
	All["C02ForestTrees"] = C02ForestTrees
	All["C02Gaps"] = C02Gaps
	All["C02Scale"] = C02Scale
	All["C02ScaleSame"] = C02ScaleSame
	All["C02ScaleSides"] = C02ScaleSides
	All["C03Angular"] = C03Angular
	All["C03AngularQuery"] = C03AngularQuery
	All["C03Gaps"] = C03Gaps
	All["C03Scale"] = C03Scale
	All["C03Search4"] = C03Search4
	All["C03Trees"] = C03Trees
	All["C03TwoTrees4"] = C03TwoTrees4
	All["C04Angular"] = C04Angular
	All["C04Five"] = C04Five
	All["C04Gaps"] = C04Gaps
	All["C04Loaded"] = C04Loaded
	All["C04Many"] = C04Many
	All["C04Scale"] = C04Scale
	All["C04Small"] = C04Small
	All["C04Tree4"] = C04Tree4
	All["C05Dist"] = C05Dist
	All["C05Gaps"] = C05Gaps
	All["C05Levels"] = C05Levels
	All["C05LevelsDeep"] = C05LevelsDeep
	All["C05Lone"] = C05Lone
	All["C05Query"] = C05Query
	All["C05Scale"] = C05Scale
	All["C05Self"] = C05Self
	All["C05Tree4"] = C05Tree4
	All["C05Tree5"] = C05Tree5
	All["C05Trees"] = C05Trees
	All["C06Bits"] = C06Bits
	All["C06Built"] = C06Built
	All["C06Context"] = C06Context
	All["C06Empty"] = C06Empty
	All["C06Gaps"] = C06Gaps
	All["C06Huge"] = C06Huge
	All["C06Items"] = C06Items
	All["C06Length"] = C06Length
	All["C06Loaded"] = C06Loaded
	All["C06Many"] = C06Many
	All["C06NaN"] = C06NaN
	All["C06Scale"] = C06Scale
	All["C07ByItem"] = C07ByItem
	All["C07Context"] = C07Context
	All["C07File"] = C07File
	All["C07Loaded"] = C07Loaded
	All["C07Memory"] = C07Memory
	All["C07Query"] = C07Query
	All["C07Results"] = C07Results
	All["C07Scale"] = C07Scale
	All["C07Sides"] = C07Sides
	All["C08Dot"] = C08Dot
	All["C08Over"] = C08Over
	All["C08Reuse"] = C08Reuse
	All["C08Same"] = C08Same
	All["C08Scale"] = C08Scale
	All["C08Small"] = C08Small
	All["C08Split"] = C08Split
	All["C08Splits"] = C08Splits
	All["C08Trees"] = C08Trees
	All["C08Wide"] = C08Wide
	All["C09Bytes"] = C09Bytes
	All["C09Close"] = C09Close
	All["C09Empty"] = C09Empty
	All["C09Limit"] = C09Limit
	All["C09Load"] = C09Load
	All["C09Places"] = C09Places
	All["C09Scale"] = C09Scale
	All["C09Self"] = C09Self
	All["C10Cached"] = C10Cached
	All["C10Index"] = C10Index
	All["C10Long"] = C10Long
	All["C10Monotone"] = C10Monotone
	All["C10NoNaN"] = C10NoNaN
	All["C10Reference"] = C10Reference
	All["C10Symmetric"] = C10Symmetric
	All["C10Value"] = C10Value
	All["C11Allocator"] = C11Allocator
	All["C11Angular"] = C11Angular
	All["C11Apart"] = C11Apart
	All["C11Build"] = C11Build
	All["C11Dot"] = C11Dot
	All["C11Search"] = C11Search
	All["C11SearchDot"] = C11SearchDot
	All["C11Shared"] = C11Shared
	All["C12Auto"] = C12Auto
	All["C12Builder"] = C12Builder
	All["C12Leaf"] = C12Leaf
	All["C12Scale"] = C12Scale
	All["C12Shares"] = C12Shares
	All["C12Single"] = C12Single
	All["C12Split"] = C12Split
	All["C12SplitDeep"] = C12SplitDeep
	All["C12Three"] = C12Three
	All["C12ThreeDeep"] = C12ThreeDeep
	All["C12Uneven"] = C12Uneven
	All["C12UnevenDeep"] = C12UnevenDeep
	All["C13Builder"] = C13Builder
	All["C13Policy"] = C13Policy
	All["C13Same"] = C13Same
	All["C13Scale"] = C13Scale
	All["C13Schedules"] = C13Schedules
	All["C13SchedulesDeep"] = C13SchedulesDeep
	All["C13Workers"] = C13Workers
	All["C14Go"] = C14Go
	All["C14Kiss32"] = C14Kiss32
	All["C14Kiss64"] = C14Kiss64
	All["C14Long"] = C14Long
	All["C14NextSide"] = C14NextSide
	All["C14Protocol32"] = C14Protocol32
	All["C14Protocol64"] = C14Protocol64
	All["C14Sides"] = C14Sides
	All["C14Streams"] = C14Streams
	All["C14Streams64"] = C14Streams64
	All["C15Five"] = C15Five
	All["C15Functions"] = C15Functions
	All["C15Heap"] = C15Heap
	All["C15HeapMany"] = C15HeapMany
	All["C15HeapRange"] = C15HeapRange
	All["C15Ids"] = C15Ids
	All["C15IdsMany"] = C15IdsMany
	All["C15Many"] = C15Many
	All["C15NaN"] = C15NaN
	All["C15Pairs"] = C15Pairs
	All["C15PairsMany"] = C15PairsMany
	All["C15Partial"] = C15Partial
	All["C15Scale"] = C15Scale
	All["C15SixDeep"] = C15SixDeep
	All["C15Wide"] = C15Wide
	All["C16Apart"] = C16Apart
	All["C16Drain"] = C16Drain
	All["C16Less"] = C16Less
	All["C16Many"] = C16Many
	All["C16NaN"] = C16NaN
	All["C16Ops"] = C16Ops
	All["C16OpsDeep"] = C16OpsDeep
	All["C16Pairs"] = C16Pairs
	All["C16Scale"] = C16Scale
	All["C16Wide"] = C16Wide
	All["C17Add"] = C17Add
	All["C17Few"] = C17Few
	All["C17Inside"] = C17Inside
	All["C17Layout"] = C17Layout
	All["C17Load"] = C17Load
	All["C18Built"] = C18Built
	All["C18BuiltDeep"] = C18BuiltDeep
	All["C18Fresh"] = C18Fresh
	All["C18FreshDeep"] = C18FreshDeep
	All["C19Absent"] = C19Absent
	All["C19Apart"] = C19Apart
	All["C19Bytes"] = C19Bytes
	All["C19Files"] = C19Files
	All["C19FilesDeep"] = C19FilesDeep
	All["C19Grow"] = C19Grow
	All["C19GrowDeep"] = C19GrowDeep
	All["C19Same"] = C19Same
	All["C19Scale"] = C19Scale
	All["C19Two"] = C19Two
	All["C20Factor"] = C20Factor
	All["C20FactorValue"] = C20FactorValue
	All["C20Given"] = C20Given
	All["C20Index"] = C20Index
	All["C20Long"] = C20Long
	All["C20Negate"] = C20Negate
	All["C20Reference"] = C20Reference
	All["C20Scale"] = C20Scale
	All["C20Search"] = C20Search
	All["C20SearchDeep"] = C20SearchDeep
	All["C20Value"] = C20Value
	All["C21Long"] = C21Long
	All["C21Margin"] = C21Margin
	All["C21Queue"] = C21Queue
	All["C21Side"] = C21Side
	All["C21SideValue"] = C21SideValue
	All["C21Start"] = C21Start
	All["C21Wide"] = C21Wide
	All["C22Any"] = C22Any
	All["C22Long"] = C22Long
	All["C22LongSplit"] = C22LongSplit
	All["C22Means"] = C22Means
	All["C22Move"] = C22Move
	All["C22Normalize"] = C22Normalize
	All["C22NormalizeValue"] = C22NormalizeValue
	All["C22Plane"] = C22Plane
	All["C22Same"] = C22Same
	All["C22Scale"] = C22Scale
	All["C22Separates"] = C22Separates
	All["C22Two"] = C22Two
	All["C23Abs"] = C23Abs
	All["C23Copy"] = C23Copy
	All["C23CopyWide"] = C23CopyWide
	All["C23Distances"] = C23Distances
	All["C23Dot"] = C23Dot
	All["C23Intersection"] = C23Intersection
	All["C23IntersectionDeep"] = C23IntersectionDeep
	All["C23Long"] = C23Long
	All["C23LongSame"] = C23LongSame
	All["C23Max"] = C23Max
	All["C23Multi"] = C23Multi
	All["C23Norm"] = C23Norm
	All["C23Round"] = C23Round
	All["C23Same"] = C23Same
	All["C23Scale"] = C23Scale
	All["C23Wide"] = C23Wide
	All["C24Options"] = C24Options
	All["C24Readme"] = C24Readme
	All["C24Same"] = C24Same
	All["C24Scale"] = C24Scale
	All["C24Twice"] = C24Twice
	All["C24Verbose"] = C24Verbose
	All["C24Wide"] = C24Wide
}
