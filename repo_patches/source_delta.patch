From 4ad567d178b8a8609d217a2f4c668c54934b6508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:40 +0000
Subject: [PATCH 01/29] fix: detach members from their previous owner when a
 1:n list is assigned

Assigning (or passing to the constructor) a list of objects already owned by
another object left them in the previous owner's list, and the given list
object itself became the internal storage.
---
 .../IEC61968/AssetModels/ConductorInfo.py     |  6 ++---
 .../IEC61968/AssetModels/TransformerInfo.py   |  6 ++---
 .../IEC61968/AssetModels/WindingInfo.py       |  9 +++----
 .../Balanced/IEC61968/AssetModels/WireType.py |  6 ++---
 .../Balanced/IEC61968/Common/GeoLocation.py   |  3 +--
 .../Balanced/IEC61968/Common/Location.py      |  3 +--
 .../WiresExt/DistributionTransformer.py       |  3 +--
 .../WiresExt/PerLengthPhaseImpedance.py       |  6 ++---
 .../WiresExt/PerLengthSequenceImpedance.py    |  3 +--
 .../IEC61968/WiresExt/TransformerBank.py      |  3 +--
 .../IEC61968/WiresExt/WindingPiImpedance.py   |  3 +--
 .../Balanced/IEC61970/Core/BaseVoltage.py     |  6 ++---
 .../IEC61970/Core/ConductingEquipment.py      |  3 +--
 .../Core/ConnectivityNodeContainer.py         |  3 +--
 .../IEC61970/Core/EquipmentContainer.py       |  3 +--
 .../IEC61970/Core/GeographicalRegion.py       |  3 +--
 CIM14/CDPSM/Balanced/IEC61970/Core/PSRType.py |  3 +--
 .../IEC61970/Core/SubGeographicalRegion.py    |  6 ++---
 .../Balanced/IEC61970/Core/Substation.py      |  3 +--
 .../Balanced/IEC61970/Core/VoltageLevel.py    |  3 +--
 .../Generation/Production/GeneratingUnit.py   |  3 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  3 +--
 .../IEC61970/Topology/ConnectivityNode.py     |  3 +--
 .../IEC61968/AssetModels/ConductorInfo.py     |  6 ++---
 .../IEC61968/AssetModels/TransformerInfo.py   |  3 +--
 .../IEC61968/AssetModels/WindingInfo.py       |  9 +++----
 .../IEC61968/AssetModels/WireType.py          |  6 ++---
 .../IEC61968/Common/GeoLocation.py            |  3 +--
 .../IEC61968/Common/Location.py               |  3 +--
 .../WiresExt/DistributionTransformer.py       |  3 +--
 .../WiresExt/PerLengthPhaseImpedance.py       |  6 ++---
 .../WiresExt/PerLengthSequenceImpedance.py    |  3 +--
 .../IEC61968/WiresExt/TransformerBank.py      |  3 +--
 .../IEC61970/Core/BaseVoltage.py              |  6 ++---
 .../IEC61970/Core/ConductingEquipment.py      |  3 +--
 .../Core/ConnectivityNodeContainer.py         |  3 +--
 .../IEC61970/Core/EquipmentContainer.py       |  3 +--
 .../IEC61970/Core/GeographicalRegion.py       |  3 +--
 .../GIS_Connectivity/IEC61970/Core/PSRType.py |  3 +--
 .../IEC61970/Core/SubGeographicalRegion.py    |  6 ++---
 .../IEC61970/Core/Substation.py               |  3 +--
 .../IEC61970/Core/VoltageLevel.py             |  3 +--
 .../Generation/Production/GeneratingUnit.py   |  3 +--
 .../IEC61970/Topology/ConnectivityNode.py     |  3 +--
 .../IEC61968/AssetModels/ConductorInfo.py     |  6 ++---
 .../IEC61968/AssetModels/TransformerInfo.py   |  6 ++---
 .../IEC61968/AssetModels/WindingInfo.py       |  9 +++----
 .../IEC61968/AssetModels/WireType.py          |  6 ++---
 .../Unbalanced/IEC61968/Common/GeoLocation.py |  3 +--
 .../Unbalanced/IEC61968/Common/Location.py    |  3 +--
 .../WiresExt/DistributionTransformer.py       |  3 +--
 .../WiresExt/PerLengthPhaseImpedance.py       |  6 ++---
 .../WiresExt/PerLengthSequenceImpedance.py    |  3 +--
 .../IEC61968/WiresExt/TransformerBank.py      |  3 +--
 .../IEC61968/WiresExt/WindingPiImpedance.py   |  3 +--
 .../Unbalanced/IEC61970/Core/BaseVoltage.py   |  6 ++---
 .../IEC61970/Core/ConductingEquipment.py      |  3 +--
 .../Core/ConnectivityNodeContainer.py         |  3 +--
 .../IEC61970/Core/EquipmentContainer.py       |  3 +--
 .../IEC61970/Core/GeographicalRegion.py       |  3 +--
 .../CDPSM/Unbalanced/IEC61970/Core/PSRType.py |  3 +--
 .../IEC61970/Core/SubGeographicalRegion.py    |  6 ++---
 .../Unbalanced/IEC61970/Core/Substation.py    |  3 +--
 .../Unbalanced/IEC61970/Core/VoltageLevel.py  |  3 +--
 .../Generation/Production/GeneratingUnit.py   |  3 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  3 +--
 .../IEC61970/Topology/ConnectivityNode.py     |  3 +--
 .../CPSM/Equipment/ControlArea/ControlArea.py |  6 ++---
 CIM14/CPSM/Equipment/Core/BaseVoltage.py      |  6 ++---
 .../Equipment/Core/ConductingEquipment.py     |  3 +--
 CIM14/CPSM/Equipment/Core/ConnectivityNode.py |  3 +--
 .../Core/ConnectivityNodeContainer.py         |  3 +--
 CIM14/CPSM/Equipment/Core/Curve.py            |  3 +--
 CIM14/CPSM/Equipment/Core/Equipment.py        |  3 +--
 .../CPSM/Equipment/Core/EquipmentContainer.py |  3 +--
 .../CPSM/Equipment/Core/GeographicalRegion.py |  3 +--
 .../Equipment/Core/PowerSystemResource.py     |  3 +--
 .../Equipment/Core/RegularIntervalSchedule.py |  3 +--
 .../Equipment/Core/SubGeographicalRegion.py   |  6 ++---
 CIM14/CPSM/Equipment/Core/Substation.py       |  3 +--
 CIM14/CPSM/Equipment/Core/Terminal.py         | 18 +++++--------
 CIM14/CPSM/Equipment/Core/Unit.py             |  3 +--
 CIM14/CPSM/Equipment/Core/VoltageLevel.py     |  3 +--
 .../Equivalents/EquivalentNetwork.py          |  3 +--
 .../Generation/Production/GeneratingUnit.py   |  9 +++----
 .../Equipment/LoadModel/ConformLoadGroup.py   |  6 ++---
 CIM14/CPSM/Equipment/LoadModel/DayType.py     |  3 +--
 CIM14/CPSM/Equipment/LoadModel/LoadArea.py    |  3 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  3 +--
 .../LoadModel/NonConformLoadGroup.py          |  6 ++---
 CIM14/CPSM/Equipment/LoadModel/Season.py      |  3 +--
 CIM14/CPSM/Equipment/LoadModel/SubLoadArea.py |  3 +--
 CIM14/CPSM/Equipment/Meas/Accumulator.py      |  3 +--
 CIM14/CPSM/Equipment/Meas/Analog.py           |  3 +--
 CIM14/CPSM/Equipment/Meas/Discrete.py         |  3 +--
 .../Equipment/Meas/MeasurementValueSource.py  |  3 +--
 .../OperationalLimits/OperationalLimitSet.py  |  3 +--
 .../CPSM/Equipment/Wires/PowerTransformer.py  |  3 +--
 .../Wires/ReactiveCapabilityCurve.py          |  3 +--
 .../CPSM/Equipment/Wires/RegulatingControl.py |  9 +++----
 CIM14/CPSM/Equipment/Wires/Switch.py          |  3 +--
 CIM14/CPSM/Equipment/Wires/TapChanger.py      |  3 +--
 .../StateVariables/TopologicalIsland.py       |  3 +--
 CIM14/CPSM/Topology/Core/BaseVoltage.py       |  3 +--
 .../CPSM/Topology/Topology/TopologicalNode.py |  6 ++---
 .../IEC61968/Common/CommonLocation.py         |  3 +--
 .../Dynamics/IEC61970/Core/CoreBaseVoltage.py |  3 +--
 .../IEC61970/Core/CoreConductingEquipment.py  |  6 ++---
 .../Dynamics/IEC61970/Core/CoreEquipment.py   |  6 ++---
 .../IEC61970/Core/CoreEquipmentContainer.py   |  3 +--
 .../Dynamics/IEC61970/Core/CorePSRType.py     |  3 +--
 .../IEC61970/Core/CorePowerSystemResource.py  |  9 +++----
 .../IEC61970/Dynamics/DynamicsBlock.py        |  6 ++---
 .../Dynamics/DynamicsBlockConnectivity.py     |  6 ++---
 .../IEC61970/Dynamics/DynamicsMetaBlock.py    | 21 +++++----------
 .../Dynamics/DynamicsMetaBlockConOutput.py    |  3 +--
 .../Dynamics/DynamicsMetaBlockConnectable.py  | 24 ++++++-----------
 .../Dynamics/DynamicsMetaBlockConnection.py   |  9 +++----
 .../Dynamics/DynamicsMetaBlockConnectivity.py |  6 ++---
 .../DynamicsMetaBlockOutputReference.py       |  3 +--
 .../Dynamics/DynamicsMetaBlockParameter.py    |  3 +--
 .../Dynamics/DynamicsMetaBlockReference.py    | 15 ++++-------
 .../InfCore/InfCoreModelingAuthoritySet.py    |  3 +--
 .../IEC61970/Wires/WiresRegulatingCondEq.py   |  3 +--
 .../IEC61970/Wires/WiresRegulatingControl.py  |  3 +--
 .../Equipment/ControlArea/ControlArea.py      |  6 ++---
 CIM14/ENTSOE/Equipment/Core/BaseVoltage.py    |  6 ++---
 .../Equipment/Core/ConductingEquipment.py     |  3 +--
 .../ENTSOE/Equipment/Core/ConnectivityNode.py |  3 +--
 CIM14/ENTSOE/Equipment/Core/Curve.py          |  3 +--
 CIM14/ENTSOE/Equipment/Core/Equipment.py      |  3 +--
 .../Equipment/Core/EquipmentContainer.py      |  3 +--
 .../Equipment/Core/GeographicalRegion.py      |  3 +--
 .../Equipment/Core/PowerSystemResource.py     |  3 +--
 .../Equipment/Core/SubGeographicalRegion.py   |  6 ++---
 CIM14/ENTSOE/Equipment/Core/Substation.py     |  3 +--
 CIM14/ENTSOE/Equipment/Core/Terminal.py       | 18 +++++--------
 CIM14/ENTSOE/Equipment/Core/Unit.py           |  3 +--
 .../Equivalents/EquivalentNetwork.py          |  3 +--
 .../Generation/Production/GeneratingUnit.py   |  6 ++---
 .../Equipment/LoadModel/ConformLoadGroup.py   |  3 +--
 CIM14/ENTSOE/Equipment/LoadModel/DayType.py   |  3 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  3 +--
 .../LoadModel/NonConformLoadGroup.py          |  3 +--
 CIM14/ENTSOE/Equipment/LoadModel/Season.py    |  3 +--
 .../ENTSOE/Equipment/LoadModel/SubLoadArea.py |  3 +--
 .../Equipment/Meas/MeasurementValueSource.py  |  3 +--
 .../OperationalLimits/OperationalLimitSet.py  |  3 +--
 .../OperationalLimits/OperationalLimitType.py |  3 +--
 .../Equipment/Wires/PowerTransformer.py       |  3 +--
 .../Wires/ReactiveCapabilityCurve.py          |  3 +--
 .../Equipment/Wires/RegulatingControl.py      |  6 ++---
 CIM14/ENTSOE/Topology/Core/BaseVoltage.py     |  3 +--
 .../Core/ConnectivityNodeContainer.py         |  3 +--
 .../Topology/Topology/TopologicalNode.py      |  3 +--
 CIM14/IEC61968/AssetModels/ConductorInfo.py   |  6 ++---
 CIM14/IEC61968/AssetModels/EndDeviceModel.py  |  3 +--
 CIM14/IEC61968/AssetModels/TransformerInfo.py |  6 ++---
 CIM14/IEC61968/AssetModels/WindingInfo.py     |  9 +++----
 CIM14/IEC61968/AssetModels/WireType.py        |  6 ++---
 CIM14/IEC61968/Assets/Asset.py                |  6 ++---
 CIM14/IEC61968/Assets/AssetContainer.py       |  6 ++---
 CIM14/IEC61968/Common/CoordinateSystem.py     |  3 +--
 CIM14/IEC61968/Common/Location.py             | 12 +++------
 CIM14/IEC61968/Common/TimeSchedule.py         |  3 +--
 CIM14/IEC61968/Customers/Customer.py          |  6 ++---
 CIM14/IEC61968/Customers/CustomerAccount.py   |  6 ++---
 CIM14/IEC61968/Customers/CustomerAgreement.py | 12 +++------
 CIM14/IEC61968/Customers/PricingStructure.py  |  3 +--
 CIM14/IEC61968/Customers/ServiceCategory.py   |  9 +++----
 CIM14/IEC61968/Customers/ServiceLocation.py   |  6 ++---
 .../Metering/DemandResponseProgram.py         |  9 +++----
 CIM14/IEC61968/Metering/DeviceFunction.py     |  6 ++---
 CIM14/IEC61968/Metering/EndDeviceAsset.py     |  9 +++----
 CIM14/IEC61968/Metering/EndDeviceGroup.py     |  3 +--
 CIM14/IEC61968/Metering/IntervalReading.py    |  3 +--
 CIM14/IEC61968/Metering/MeterAsset.py         | 12 +++------
 CIM14/IEC61968/Metering/MeterReading.py       |  6 ++---
 CIM14/IEC61968/Metering/Pending.py            |  3 +--
 CIM14/IEC61968/Metering/Reading.py            |  3 +--
 CIM14/IEC61968/Metering/ReadingType.py        |  6 ++---
 .../IEC61968/Metering/ServiceDeliveryPoint.py |  6 ++---
 .../PaymentMetering/AuxiliaryAccount.py       |  3 +--
 .../PaymentMetering/AuxiliaryAgreement.py     |  3 +--
 CIM14/IEC61968/PaymentMetering/Cashier.py     |  3 +--
 .../IEC61968/PaymentMetering/CashierShift.py  |  6 ++---
 CIM14/IEC61968/PaymentMetering/Charge.py      |  3 +--
 .../PaymentMetering/MerchantAccount.py        |  6 ++---
 .../PaymentMetering/MerchantAgreement.py      |  3 +--
 CIM14/IEC61968/PaymentMetering/PointOfSale.py |  3 +--
 CIM14/IEC61968/PaymentMetering/Receipt.py     |  6 ++---
 .../PaymentMetering/ServiceSupplier.py        |  6 ++---
 CIM14/IEC61968/PaymentMetering/Transaction.py |  3 +--
 CIM14/IEC61968/PaymentMetering/Vendor.py      |  9 +++----
 CIM14/IEC61968/PaymentMetering/VendorShift.py |  6 ++---
 .../WiresExt/DistributionTransformer.py       |  6 ++---
 .../WiresExt/PerLengthPhaseImpedance.py       |  6 ++---
 .../WiresExt/PerLengthSequenceImpedance.py    |  3 +--
 CIM14/IEC61968/WiresExt/TransformerBank.py    |  3 +--
 CIM14/IEC61968/WiresExt/WindingPiImpedance.py |  3 +--
 CIM14/IEC61970/Contingency/Contingency.py     |  3 +--
 CIM14/IEC61970/ControlArea/ControlArea.py     |  6 ++---
 .../ControlArea/ControlAreaGeneratingUnit.py  |  3 +--
 CIM14/IEC61970/ControlArea/TieFlow.py         |  3 +--
 CIM14/IEC61970/Core/BaseVoltage.py            |  9 +++----
 CIM14/IEC61970/Core/ConductingEquipment.py    |  6 ++---
 CIM14/IEC61970/Core/ConnectivityNode.py       |  3 +--
 .../Core/ConnectivityNodeContainer.py         |  6 ++---
 CIM14/IEC61970/Core/Curve.py                  |  3 +--
 CIM14/IEC61970/Core/Equipment.py              |  6 ++---
 CIM14/IEC61970/Core/EquipmentContainer.py     |  3 +--
 CIM14/IEC61970/Core/GeographicalRegion.py     |  3 +--
 .../Core/IrregularIntervalSchedule.py         |  3 +--
 CIM14/IEC61970/Core/OperatingParticipant.py   |  3 +--
 CIM14/IEC61970/Core/PSRType.py                |  3 +--
 CIM14/IEC61970/Core/PowerSystemResource.py    |  9 +++----
 .../IEC61970/Core/RegularIntervalSchedule.py  |  3 +--
 CIM14/IEC61970/Core/ReportingGroup.py         |  6 ++---
 CIM14/IEC61970/Core/ReportingSuperGroup.py    |  3 +--
 CIM14/IEC61970/Core/SubGeographicalRegion.py  |  6 ++---
 CIM14/IEC61970/Core/Substation.py             |  6 ++---
 CIM14/IEC61970/Core/Terminal.py               | 24 ++++++-----------
 CIM14/IEC61970/Core/Unit.py                   | 15 ++++-------
 CIM14/IEC61970/Core/VoltageLevel.py           |  3 +--
 CIM14/IEC61970/Dynamics/Block.py              | 15 ++++-------
 CIM14/IEC61970/Dynamics/BlockConnectivity.py  |  6 ++---
 CIM14/IEC61970/Dynamics/BlockInputType.py     |  6 ++---
 CIM14/IEC61970/Dynamics/BlockOutputType.py    |  6 ++---
 CIM14/IEC61970/Dynamics/BlockType.py          |  6 ++---
 .../Dynamics/BlockUsageOutputReference.py     |  3 +--
 CIM14/IEC61970/Dynamics/ConnectionFrame.py    |  6 ++---
 CIM14/IEC61970/Dynamics/MetaBlock.py          | 24 ++++++-----------
 CIM14/IEC61970/Dynamics/MetaBlockConOutput.py |  3 +--
 .../IEC61970/Dynamics/MetaBlockConnectable.py | 27 +++++++------------
 .../IEC61970/Dynamics/MetaBlockConnection.py  |  9 +++----
 .../Dynamics/MetaBlockConnectivity.py         | 15 ++++-------
 CIM14/IEC61970/Dynamics/MetaBlockInput.py     |  9 +++----
 CIM14/IEC61970/Dynamics/MetaBlockOutput.py    |  6 ++---
 .../Dynamics/MetaBlockOutputReference.py      |  3 +--
 CIM14/IEC61970/Dynamics/MetaBlockParameter.py |  3 +--
 CIM14/IEC61970/Dynamics/MetaBlockReference.py | 18 +++++--------
 CIM14/IEC61970/Dynamics/Slot.py               |  9 +++----
 CIM14/IEC61970/Dynamics/SlotOutput.py         |  3 +--
 CIM14/IEC61970/Dynamics/SlotReference.py      |  3 +--
 CIM14/IEC61970/Dynamics/UserBlockParameter.py |  3 +--
 .../IEC61970/Equivalents/EquivalentNetwork.py |  3 +--
 .../GenerationDynamics/HeatRecoveryBoiler.py  |  3 +--
 .../Production/CogenerationPlant.py           |  3 +--
 .../Production/CombinedCyclePlant.py          |  3 +--
 .../Generation/Production/FossilFuel.py       |  3 +--
 .../Generation/Production/GeneratingUnit.py   | 12 +++------
 .../Production/HydroGeneratingUnit.py         |  6 ++---
 .../Generation/Production/HydroPowerPlant.py  |  6 ++---
 .../Generation/Production/Reservoir.py        | 15 ++++-------
 .../Production/ThermalGeneratingUnit.py       | 12 +++------
 .../Informative/InfCore/ModelingAuthority.py  |  3 +--
 .../InfCore/ModelingAuthoritySet.py           |  3 +--
 CIM14/IEC61970/LoadModel/ConformLoadGroup.py  |  6 ++---
 CIM14/IEC61970/LoadModel/DayType.py           |  3 +--
 CIM14/IEC61970/LoadModel/LoadArea.py          |  3 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  3 +--
 .../IEC61970/LoadModel/NonConformLoadGroup.py |  6 ++---
 CIM14/IEC61970/LoadModel/PowerCutZone.py      |  3 +--
 CIM14/IEC61970/LoadModel/Season.py            |  3 +--
 CIM14/IEC61970/LoadModel/SubLoadArea.py       |  3 +--
 CIM14/IEC61970/Meas/Accumulator.py            |  3 +--
 CIM14/IEC61970/Meas/AccumulatorLimitSet.py    |  3 +--
 CIM14/IEC61970/Meas/Analog.py                 |  3 +--
 CIM14/IEC61970/Meas/AnalogLimitSet.py         |  3 +--
 CIM14/IEC61970/Meas/AnalogValue.py            |  6 ++---
 CIM14/IEC61970/Meas/ControlType.py            |  3 +--
 CIM14/IEC61970/Meas/Discrete.py               |  3 +--
 CIM14/IEC61970/Meas/Measurement.py            |  3 +--
 CIM14/IEC61970/Meas/MeasurementValueSource.py |  3 +--
 CIM14/IEC61970/Meas/StringMeasurement.py      |  3 +--
 CIM14/IEC61970/Meas/ValueAliasSet.py          |  9 +++----
 .../IEC61970/OperationalLimits/BranchGroup.py |  3 +--
 .../OperationalLimits/OperationalLimitSet.py  |  3 +--
 .../OperationalLimits/OperationalLimitType.py |  3 +--
 CIM14/IEC61970/Outage/ClearanceTagType.py     |  3 +--
 CIM14/IEC61970/Outage/OutageSchedule.py       |  3 +--
 CIM14/IEC61970/SCADA/RemoteUnit.py            |  3 +--
 .../StateVariables/TopologicalIsland.py       |  3 +--
 CIM14/IEC61970/Topology/BusNameMarker.py      |  3 +--
 CIM14/IEC61970/Topology/TopologicalNode.py    |  6 ++---
 CIM14/IEC61970/Wires/CompositeSwitch.py       |  3 +--
 CIM14/IEC61970/Wires/EnergyConsumer.py        |  3 +--
 CIM14/IEC61970/Wires/PowerTransformer.py      |  3 +--
 CIM14/IEC61970/Wires/ProtectedSwitch.py       |  3 +--
 .../IEC61970/Wires/ReactiveCapabilityCurve.py |  3 +--
 CIM14/IEC61970/Wires/RegulatingCondEq.py      |  3 +--
 CIM14/IEC61970/Wires/RegulatingControl.py     |  9 +++----
 CIM14/IEC61970/Wires/RegulationSchedule.py    |  3 +--
 CIM14/IEC61970/Wires/Switch.py                |  3 +--
 CIM14/IEC61970/Wires/TapChanger.py            |  3 +--
 CIM14/IEC61970/Wires/TransformerWinding.py    |  6 ++---
 .../IEC61968/AssetModels/ConductorInfo.py     |  6 ++---
 .../AssetModels/PowerTransformerInfo.py       |  3 +--
 .../AssetModels/TransformerEndInfo.py         |  3 +--
 .../AssetModels/TransformerTankInfo.py        |  6 ++---
 .../Asset/IEC61968/AssetModels/WireType.py    |  3 +--
 .../Asset/IEC61970/Core/IdentifiedObject.py   |  3 +--
 CIM15/CDPSM/Asset/IEC61970/Core/NameType.py   |  3 +--
 .../IEC61970/Wires/PerLengthPhaseImpedance.py |  3 +--
 .../Wires/PerLengthSequenceImpedance.py       |  3 +--
 .../Wires/TransformerCoreAdmittance.py        |  3 +--
 .../Wires/TransformerStarImpedance.py         |  3 +--
 .../IEC61970/Core/IdentifiedObject.py         |  3 +--
 .../CDPSM/Balanced/IEC61970/Core/NameType.py  |  3 +--
 .../Generation/Production/GeneratingUnit.py   |  3 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  3 +--
 .../Wires/TransformerCoreAdmittance.py        |  3 +--
 .../Balanced/IEC61970/Wires/TransformerEnd.py |  3 +--
 .../Wires/TransformerStarImpedance.py         |  3 +--
 .../Connectivity/IEC61970/Core/BaseVoltage.py |  6 ++---
 .../IEC61970/Core/ConductingEquipment.py      |  3 +--
 .../IEC61970/Core/ConnectivityNode.py         |  3 +--
 .../Core/ConnectivityNodeContainer.py         |  3 +--
 .../IEC61970/Core/EquipmentContainer.py       |  3 +--
 .../IEC61970/Core/GeographicalRegion.py       |  3 +--
 .../IEC61970/Core/IdentifiedObject.py         |  3 +--
 .../Connectivity/IEC61970/Core/NameType.py    |  3 +--
 .../IEC61970/Core/NameTypeAuthority.py        |  3 +--
 .../IEC61970/Core/SubGeographicalRegion.py    |  6 ++---
 .../Connectivity/IEC61970/Core/Substation.py  |  6 ++---
 .../Connectivity/IEC61970/Core/Terminal.py    |  3 +--
 .../IEC61970/Core/VoltageLevel.py             |  3 +--
 .../IEC61970/Wires/PowerTransformer.py        |  6 ++---
 .../IEC61970/Wires/TransformerTank.py         |  3 +--
 .../IEC61968/Common/CoordinateSystem.py       |  3 +--
 .../Geographical/IEC61968/Common/Location.py  |  6 ++---
 .../IEC61970/Core/IdentifiedObject.py         |  3 +--
 .../Geographical/IEC61970/Core/NameType.py    |  3 +--
 CIM15/IEC61968/AssetModels/ConductorInfo.py   |  6 ++---
 CIM15/IEC61968/AssetModels/EndDeviceInfo.py   |  3 +--
 .../AssetModels/PowerTransformerInfo.py       |  6 ++---
 CIM15/IEC61968/AssetModels/TapChangerInfo.py  |  3 +--
 .../AssetModels/TransformerEndInfo.py         | 18 +++++--------
 .../AssetModels/TransformerTankInfo.py        | 12 +++------
 CIM15/IEC61968/AssetModels/WireType.py        |  6 ++---
 CIM15/IEC61968/Assets/Asset.py                | 21 +++++----------
 CIM15/IEC61968/Assets/AssetContainer.py       |  6 ++---
 CIM15/IEC61968/Assets/AssetModel.py           |  3 +--
 CIM15/IEC61968/Assets/ProductAssetModel.py    |  3 +--
 CIM15/IEC61968/Common/CoordinateSystem.py     |  6 ++---
 CIM15/IEC61968/Common/Document.py             | 24 ++++++-----------
 CIM15/IEC61968/Common/Location.py             | 15 ++++-------
 CIM15/IEC61968/Common/TimePoint.py            |  3 +--
 CIM15/IEC61968/Common/TimeSchedule.py         |  3 +--
 CIM15/IEC61968/Customers/Customer.py          | 12 +++------
 CIM15/IEC61968/Customers/CustomerAccount.py   | 15 ++++-------
 CIM15/IEC61968/Customers/CustomerAgreement.py | 12 +++------
 CIM15/IEC61968/Customers/PricingStructure.py  |  3 +--
 CIM15/IEC61968/Customers/ServiceCategory.py   |  6 ++---
 CIM15/IEC61968/Customers/ServiceLocation.py   |  9 +++----
 .../Metering/DemandResponseProgram.py         |  9 +++----
 CIM15/IEC61968/Metering/EndDevice.py          |  6 ++---
 CIM15/IEC61968/Metering/EndDeviceFunction.py  |  6 ++---
 CIM15/IEC61968/Metering/EndDeviceGroup.py     |  3 +--
 CIM15/IEC61968/Metering/IntervalReading.py    |  3 +--
 CIM15/IEC61968/Metering/Meter.py              | 12 +++------
 CIM15/IEC61968/Metering/MeterReading.py       |  6 ++---
 CIM15/IEC61968/Metering/PendingCalculation.py |  3 +--
 CIM15/IEC61968/Metering/Reading.py            |  3 +--
 CIM15/IEC61968/Metering/ReadingType.py        |  6 ++---
 .../IEC61968/Metering/ServiceDeliveryPoint.py |  6 ++---
 .../PaymentMetering/AuxiliaryAccount.py       |  3 +--
 .../PaymentMetering/AuxiliaryAgreement.py     |  3 +--
 CIM15/IEC61968/PaymentMetering/Cashier.py     |  3 +--
 .../IEC61968/PaymentMetering/CashierShift.py  |  6 ++---
 CIM15/IEC61968/PaymentMetering/Charge.py      |  3 +--
 .../PaymentMetering/MerchantAccount.py        |  3 +--
 .../PaymentMetering/MerchantAgreement.py      |  3 +--
 CIM15/IEC61968/PaymentMetering/PointOfSale.py |  3 +--
 CIM15/IEC61968/PaymentMetering/Receipt.py     |  6 ++---
 .../PaymentMetering/ServiceSupplier.py        |  9 +++----
 CIM15/IEC61968/PaymentMetering/Transaction.py |  3 +--
 CIM15/IEC61968/PaymentMetering/Vendor.py      |  3 +--
 CIM15/IEC61968/PaymentMetering/VendorShift.py |  6 ++---
 CIM15/IEC61968/Work/Work.py                   |  9 +++----
 CIM15/IEC61970/Contingency/Contingency.py     |  3 +--
 CIM15/IEC61970/ControlArea/ControlArea.py     |  6 ++---
 .../ControlArea/ControlAreaGeneratingUnit.py  |  3 +--
 CIM15/IEC61970/ControlArea/TieFlow.py         |  3 +--
 CIM15/IEC61970/Core/BaseVoltage.py            | 12 +++------
 CIM15/IEC61970/Core/ConductingEquipment.py    |  9 +++----
 CIM15/IEC61970/Core/ConnectivityNode.py       |  3 +--
 .../Core/ConnectivityNodeContainer.py         |  6 ++---
 CIM15/IEC61970/Core/Curve.py                  |  3 +--
 CIM15/IEC61970/Core/Equipment.py              |  6 ++---
 CIM15/IEC61970/Core/EquipmentContainer.py     |  3 +--
 CIM15/IEC61970/Core/GeographicalRegion.py     |  3 +--
 CIM15/IEC61970/Core/IdentifiedObject.py       |  6 ++---
 .../Core/IrregularIntervalSchedule.py         |  3 +--
 CIM15/IEC61970/Core/NameType.py               |  3 +--
 CIM15/IEC61970/Core/NameTypeAuthority.py      |  3 +--
 CIM15/IEC61970/Core/OperatingParticipant.py   |  3 +--
 CIM15/IEC61970/Core/PSRType.py                |  3 +--
 CIM15/IEC61970/Core/PowerSystemResource.py    | 21 +++++----------
 .../IEC61970/Core/RegularIntervalSchedule.py  |  3 +--
 CIM15/IEC61970/Core/ReportingGroup.py         |  6 ++---
 CIM15/IEC61970/Core/ReportingSuperGroup.py    |  3 +--
 CIM15/IEC61970/Core/SubGeographicalRegion.py  |  6 ++---
 CIM15/IEC61970/Core/Substation.py             |  6 ++---
 CIM15/IEC61970/Core/Terminal.py               | 27 +++++++------------
 CIM15/IEC61970/Core/VoltageLevel.py           |  3 +--
 .../IEC61970/Equivalents/EquivalentNetwork.py |  3 +--
 .../GenerationDynamics/HeatRecoveryBoiler.py  |  3 +--
 .../Production/CogenerationPlant.py           |  3 +--
 .../Production/CombinedCyclePlant.py          |  3 +--
 .../Generation/Production/FossilFuel.py       |  3 +--
 .../Generation/Production/GeneratingUnit.py   | 12 +++------
 .../Production/HydroGeneratingUnit.py         |  6 ++---
 .../Generation/Production/HydroPowerPlant.py  |  6 ++---
 .../Generation/Production/Reservoir.py        | 15 ++++-------
 .../Production/ThermalGeneratingUnit.py       | 12 +++------
 CIM15/IEC61970/Graphics/DiagramObject.py      |  3 +--
 .../Graphics/DiagramObjectGluePoint.py        |  3 +--
 CIM15/IEC61970/Graphics/DiagramObjectStyle.py |  3 +--
 .../InfAssetModels/AssetModelCatalogue.py     |  3 +--
 .../InfAssetModels/AssetModelCatalogueItem.py |  6 ++---
 .../InfAssetModels/TransformerAssetModel.py   |  3 +--
 .../IEC61970/Informative/InfAssets/Bushing.py |  3 +--
 .../Informative/InfAssets/ComEquipment.py     |  3 +--
 .../InfAssets/CurrentTransformerInfo.py       |  3 +--
 .../Informative/InfAssets/DimensionsInfo.py   |  6 ++---
 CIM15/IEC61970/Informative/InfAssets/Duct.py  |  3 +--
 .../Informative/InfAssets/DuctBank.py         |  3 +--
 .../InfAssets/FaultIndicatorInfo.py           |  3 +--
 .../InfAssets/GenericAssetModelOrMaterial.py  | 12 +++------
 .../Informative/InfAssets/MountingPoint.py    |  3 +--
 CIM15/IEC61970/Informative/InfAssets/Pole.py  |  3 +--
 .../InfAssets/PotentialTransformerInfo.py     |  3 +--
 .../Informative/InfAssets/Procedure.py        |  6 ++---
 .../InfAssets/ShuntImpedanceInfo.py           |  3 +--
 .../Informative/InfAssets/Specification.py    | 15 ++++-------
 .../Informative/InfAssets/Structure.py        |  3 +--
 .../InfAssets/SurgeProtectorInfo.py           |  3 +--
 .../Informative/InfAssets/TransformerAsset.py |  3 +--
 .../InfAssets/TransformerObservation.py       |  6 ++---
 .../Informative/InfAssets/WorkEquipment.py    |  3 +--
 CIM15/IEC61970/Informative/InfCommon/Bank.py  |  3 +--
 .../InfCommon/ScheduleParameterInfo.py        |  3 +--
 .../Informative/InfCore/ModelingAuthority.py  |  3 +--
 .../InfCore/ModelingAuthoritySet.py           |  3 +--
 .../Informative/InfCustomers/OutageHistory.py |  3 +--
 .../InfCustomers/StandardIndustryCode.py      |  3 +--
 .../InfCustomers/WorkBillingInfo.py           |  3 +--
 .../Informative/InfERPSupport/ErpBOM.py       |  3 +--
 .../InfERPSupport/ErpCompetency.py            |  3 +--
 .../Informative/InfERPSupport/ErpInvoice.py   |  3 +--
 .../InfERPSupport/ErpInvoiceLineItem.py       |  6 ++---
 .../Informative/InfERPSupport/ErpJournal.py   |  3 +--
 .../Informative/InfERPSupport/ErpLedger.py    |  3 +--
 .../InfERPSupport/ErpLedgerBudget.py          |  3 +--
 .../InfERPSupport/ErpOrganisation.py          | 27 +++++++------------
 .../Informative/InfERPSupport/ErpPayable.py   |  3 +--
 .../Informative/InfERPSupport/ErpPerson.py    | 21 +++++----------
 .../Informative/InfERPSupport/ErpPersonnel.py |  3 +--
 .../InfERPSupport/ErpProjectAccounting.py     | 12 +++------
 .../InfERPSupport/ErpPurchaseOrder.py         |  3 +--
 .../Informative/InfERPSupport/ErpQuote.py     |  3 +--
 .../InfERPSupport/ErpReceivable.py            |  3 +--
 .../InfERPSupport/ErpReceiveDelivery.py       |  3 +--
 .../InfERPSupport/ErpRequisition.py           |  3 +--
 .../Informative/InfERPSupport/ErpTimeSheet.py |  3 +--
 .../Informative/InfGMLSupport/Diagram.py      |  3 +--
 .../InfGMLSupport/GmlBaseSymbol.py            |  3 +--
 .../Informative/InfGMLSupport/GmlColour.py    |  9 +++----
 .../InfGMLSupport/GmlDiagramObject.py         | 15 ++++-------
 .../InfGMLSupport/GmlFeatureStyle.py          |  9 +++----
 .../Informative/InfGMLSupport/GmlFill.py      |  6 ++---
 .../Informative/InfGMLSupport/GmlFont.py      |  3 +--
 .../Informative/InfGMLSupport/GmlGraphic.py   |  3 +--
 .../Informative/InfGMLSupport/GmlHalo.py      |  3 +--
 .../InfGMLSupport/GmlLabelPlacement.py        |  3 +--
 .../InfGMLSupport/GmlLabelStyle.py            |  6 ++---
 .../InfGMLSupport/GmlObservation.py           |  6 ++---
 .../Informative/InfGMLSupport/GmlSelector.py  |  3 +--
 .../Informative/InfGMLSupport/GmlStroke.py    |  6 ++---
 .../InfLoadControl/LoadMgmtFunction.py        |  3 +--
 .../Informative/InfLocations/LandProperty.py  |  9 +++----
 .../Informative/InfLocations/Route.py         |  3 +--
 .../Informative/InfOperations/CallBack.py     |  3 +--
 .../Informative/InfOperations/ChangeSet.py    |  3 +--
 .../InfOperations/CircuitSection.py           |  3 +--
 .../InfOperations/IncidentRecord.py           |  3 +--
 .../InfOperations/NetworkDataSet.py           |  3 +--
 .../Informative/InfOperations/OutageRecord.py |  3 +--
 .../Informative/InfOperations/OutageStep.py   |  3 +--
 .../InfOperations/PlannedOutage.py            |  6 ++---
 .../InfOperations/SafetyDocument.py           |  6 ++---
 .../InfOperations/SwitchingSchedule.py        |  3 +--
 .../InfTypeAsset/TypeAssetCatalogue.py        |  3 +--
 .../Informative/InfWork/BusinessCase.py       |  6 ++---
 .../Informative/InfWork/CUAllowableAction.py  |  3 +--
 CIM15/IEC61970/Informative/InfWork/CUGroup.py |  3 +--
 .../Informative/InfWork/CULaborCode.py        |  3 +--
 .../IEC61970/Informative/InfWork/CostType.py  |  9 +++----
 CIM15/IEC61970/Informative/InfWork/Crew.py    | 12 +++------
 CIM15/IEC61970/Informative/InfWork/Design.py  |  9 +++----
 .../Informative/InfWork/DesignLocation.py     | 12 +++------
 .../Informative/InfWork/InspectionDataSet.py  |  3 +--
 .../Informative/InfWork/MaterialItem.py       |  9 +++----
 .../Informative/InfWork/OneCallRequest.py     |  3 +--
 .../Informative/InfWork/OverheadCost.py       |  6 ++---
 CIM15/IEC61970/Informative/InfWork/Project.py |  6 ++---
 .../Informative/InfWork/PropertyUnit.py       |  3 +--
 CIM15/IEC61970/Informative/InfWork/Request.py |  3 +--
 .../Informative/InfWork/TypeMaterial.py       | 12 +++------
 .../Informative/InfWork/WorkCostDetail.py     | 15 ++++-------
 .../Informative/InfWork/WorkFlowStep.py       |  3 +--
 .../IEC61970/Informative/InfWork/WorkTask.py  | 27 +++++++------------
 CIM15/IEC61970/LoadModel/ConformLoadGroup.py  |  6 ++---
 CIM15/IEC61970/LoadModel/DayType.py           |  3 +--
 CIM15/IEC61970/LoadModel/LoadArea.py          |  3 +--
 .../LoadModel/LoadResponseCharacteristic.py   |  3 +--
 .../IEC61970/LoadModel/NonConformLoadGroup.py |  6 ++---
 CIM15/IEC61970/LoadModel/PowerCutZone.py      |  3 +--
 CIM15/IEC61970/LoadModel/Season.py            |  3 +--
 CIM15/IEC61970/LoadModel/SubLoadArea.py       |  3 +--
 CIM15/IEC61970/Meas/Accumulator.py            |  3 +--
 CIM15/IEC61970/Meas/AccumulatorLimitSet.py    |  3 +--
 CIM15/IEC61970/Meas/Analog.py                 |  3 +--
 CIM15/IEC61970/Meas/AnalogLimitSet.py         |  3 +--
 CIM15/IEC61970/Meas/AnalogValue.py            |  6 ++---
 CIM15/IEC61970/Meas/ControlType.py            |  3 +--
 CIM15/IEC61970/Meas/Discrete.py               |  3 +--
 CIM15/IEC61970/Meas/MeasurementValue.py       |  3 +--
 CIM15/IEC61970/Meas/MeasurementValueSource.py |  3 +--
 CIM15/IEC61970/Meas/StringMeasurement.py      |  3 +--
 CIM15/IEC61970/Meas/ValueAliasSet.py          |  9 +++----
 .../OperationalLimits/ActivePowerLimitSet.py  |  3 +--
 .../ApparentPowerLimitSet.py                  |  3 +--
 .../IEC61970/OperationalLimits/BranchGroup.py |  3 +--
 .../OperationalLimits/CurrentLimitSet.py      |  3 +--
 .../OperationalLimits/OperationalLimitSet.py  |  3 +--
 .../OperationalLimits/OperationalLimitType.py |  3 +--
 .../OperationalLimits/VoltageLimitSet.py      |  3 +--
 CIM15/IEC61970/Outage/ClearanceTagType.py     |  3 +--
 CIM15/IEC61970/Outage/OutageSchedule.py       |  3 +--
 CIM15/IEC61970/SCADA/RemoteUnit.py            |  3 +--
 .../StateVariables/TopologicalIsland.py       |  3 +--
 CIM15/IEC61970/Topology/BusNameMarker.py      |  3 +--
 CIM15/IEC61970/Topology/TopologicalNode.py    |  6 ++---
 CIM15/IEC61970/Wires/ACLineSegment.py         | 12 +++------
 CIM15/IEC61970/Wires/CompositeSwitch.py       |  3 +--
 CIM15/IEC61970/Wires/EnergyConsumer.py        |  6 ++---
 CIM15/IEC61970/Wires/Ground.py                |  3 +--
 .../IEC61970/Wires/PerLengthPhaseImpedance.py |  6 ++---
 .../Wires/PerLengthSequenceImpedance.py       |  3 +--
 .../IEC61970/Wires/PhaseTapChangerTabular.py  |  6 ++---
 CIM15/IEC61970/Wires/PowerTransformer.py      |  6 ++---
 CIM15/IEC61970/Wires/ProtectedSwitch.py       |  3 +--
 .../IEC61970/Wires/RatioTapChangerTabular.py  |  6 ++---
 .../IEC61970/Wires/ReactiveCapabilityCurve.py |  3 +--
 CIM15/IEC61970/Wires/RegulatingCondEq.py      |  3 +--
 CIM15/IEC61970/Wires/RegulatingControl.py     |  6 ++---
 CIM15/IEC61970/Wires/RegulationSchedule.py    |  3 +--
 CIM15/IEC61970/Wires/ShuntCompensator.py      |  3 +--
 CIM15/IEC61970/Wires/Switch.py                |  6 ++---
 CIM15/IEC61970/Wires/TapChanger.py            |  3 +--
 CIM15/IEC61970/Wires/TapChangerControl.py     |  3 +--
 .../Wires/TransformerCoreAdmittance.py        |  3 +--
 CIM15/IEC61970/Wires/TransformerEnd.py        |  9 +++----
 .../Wires/TransformerStarImpedance.py         |  3 +--
 CIM15/IEC61970/Wires/TransformerTank.py       |  9 +++----
 567 files changed, 962 insertions(+), 1924 deletions(-)

diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ConductorInfo.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ConductorInfo.py
index 257ef25..3233600 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ConductorInfo.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ConductorInfo.py
@@ -74,8 +74,7 @@ class ConductorInfo(IdentifiedObject):
         for x in self._WireArrangements:
             x.ConductorInfo = None
         for y in value:
-            y._ConductorInfo = self
-        self._WireArrangements = value
+            y.ConductorInfo = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -96,8 +95,7 @@ class ConductorInfo(IdentifiedObject):
         for x in self._ConductorSegments:
             x.ConductorInfo = None
         for y in value:
-            y._ConductorInfo = self
-        self._ConductorSegments = value
+            y.ConductorInfo = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/TransformerInfo.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/TransformerInfo.py
index 9c77ad2..3c61078 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/TransformerInfo.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/TransformerInfo.py
@@ -54,8 +54,7 @@ class TransformerInfo(IdentifiedObject):
         for x in self._Transformers:
             x.TransformerInfo = None
         for y in value:
-            y._TransformerInfo = self
-        self._Transformers = value
+            y.TransformerInfo = self
 
     Transformers = property(getTransformers, setTransformers)
 
@@ -76,8 +75,7 @@ class TransformerInfo(IdentifiedObject):
         for x in self._WindingInfos:
             x.TransformerInfo = None
         for y in value:
-            y._TransformerInfo = self
-        self._WindingInfos = value
+            y.TransformerInfo = self
 
     WindingInfos = property(getWindingInfos, setWindingInfos)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WindingInfo.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WindingInfo.py
index 3e80846..63a8e02 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WindingInfo.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WindingInfo.py
@@ -98,8 +98,7 @@ class WindingInfo(IdentifiedObject):
         for x in self._WindingTests:
             x.FromWinding = None
         for y in value:
-            y._FromWinding = self
-        self._WindingTests = value
+            y.FromWinding = self
 
     WindingTests = property(getWindingTests, setWindingTests)
 
@@ -120,8 +119,7 @@ class WindingInfo(IdentifiedObject):
         for x in self._ToWindingSpecs:
             x.ToWinding = None
         for y in value:
-            y._ToWinding = self
-        self._ToWindingSpecs = value
+            y.ToWinding = self
 
     ToWindingSpecs = property(getToWindingSpecs, setToWindingSpecs)
 
@@ -159,8 +157,7 @@ class WindingInfo(IdentifiedObject):
         for x in self._Windings:
             x.WindingInfo = None
         for y in value:
-            y._WindingInfo = self
-        self._Windings = value
+            y.WindingInfo = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WireType.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WireType.py
index 330f340..e7468eb 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WireType.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/WireType.py
@@ -102,8 +102,7 @@ class WireType(IdentifiedObject):
         for x in self._ConcentricNeutralCableInfos:
             x.WireType = None
         for y in value:
-            y._WireType = self
-        self._ConcentricNeutralCableInfos = value
+            y.WireType = self
 
     ConcentricNeutralCableInfos = property(getConcentricNeutralCableInfos, setConcentricNeutralCableInfos)
 
@@ -124,8 +123,7 @@ class WireType(IdentifiedObject):
         for x in self._WireArrangements:
             x.WireType = None
         for y in value:
-            y._WireType = self
-        self._WireArrangements = value
+            y.WireType = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/Common/GeoLocation.py b/CIM14/CDPSM/Balanced/IEC61968/Common/GeoLocation.py
index 86ab513..2504839 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/Common/GeoLocation.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/Common/GeoLocation.py
@@ -50,8 +50,7 @@ class GeoLocation(Location):
         for x in self._PowerSystemResources:
             x.GeoLocation = None
         for y in value:
-            y._GeoLocation = self
-        self._PowerSystemResources = value
+            y.GeoLocation = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/Common/Location.py b/CIM14/CDPSM/Balanced/IEC61968/Common/Location.py
index e973778..7a2750d 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/Common/Location.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/Common/Location.py
@@ -50,8 +50,7 @@ class Location(IdentifiedObject):
         for x in self._PositionPoints:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._PositionPoints = value
+            y.Location = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/DistributionTransformer.py b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/DistributionTransformer.py
index ca7f652..121a33f 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/DistributionTransformer.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/DistributionTransformer.py
@@ -75,8 +75,7 @@ class DistributionTransformer(Equipment):
         for x in self._Windings:
             x.Transformer = None
         for y in value:
-            y._Transformer = self
-        self._Windings = value
+            y.Transformer = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py
index 70a18e3..f882bf4 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py
@@ -58,8 +58,7 @@ class PerLengthPhaseImpedance(IdentifiedObject):
         for x in self._PhaseImpedanceData:
             x.PhaseImpedance = None
         for y in value:
-            y._PhaseImpedance = self
-        self._PhaseImpedanceData = value
+            y.PhaseImpedance = self
 
     PhaseImpedanceData = property(getPhaseImpedanceData, setPhaseImpedanceData)
 
@@ -80,8 +79,7 @@ class PerLengthPhaseImpedance(IdentifiedObject):
         for x in self._ConductorSegments:
             x.PhaseImpedance = None
         for y in value:
-            y._PhaseImpedance = self
-        self._ConductorSegments = value
+            y.PhaseImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py
index 6b411f7..17c5c99 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py
@@ -82,8 +82,7 @@ class PerLengthSequenceImpedance(IdentifiedObject):
         for x in self._ConductorSegments:
             x.SequenceImpedance = None
         for y in value:
-            y._SequenceImpedance = self
-        self._ConductorSegments = value
+            y.SequenceImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/TransformerBank.py b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/TransformerBank.py
index 418831e..760c9e5 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/TransformerBank.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/TransformerBank.py
@@ -54,8 +54,7 @@ class TransformerBank(Equipment):
         for x in self._Transformers:
             x.TransformerBank = None
         for y in value:
-            y._TransformerBank = self
-        self._Transformers = value
+            y.TransformerBank = self
 
     Transformers = property(getTransformers, setTransformers)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/WindingPiImpedance.py b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/WindingPiImpedance.py
index d8db444..1c2c79f 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/WiresExt/WindingPiImpedance.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/WiresExt/WindingPiImpedance.py
@@ -82,8 +82,7 @@ class WindingPiImpedance(IdentifiedObject):
         for x in self._Windings:
             x.PiImpedance = None
         for y in value:
-            y._PiImpedance = self
-        self._Windings = value
+            y.PiImpedance = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/BaseVoltage.py b/CIM14/CDPSM/Balanced/IEC61970/Core/BaseVoltage.py
index e9eaaf8..be44ee2 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/BaseVoltage.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/BaseVoltage.py
@@ -58,8 +58,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -80,8 +79,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/ConductingEquipment.py b/CIM14/CDPSM/Balanced/IEC61970/Core/ConductingEquipment.py
index ae341ac..cb47ada 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/ConductingEquipment.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/ConductingEquipment.py
@@ -58,8 +58,7 @@ class ConductingEquipment(Equipment):
         for x in self._Terminals:
             x.ConductingEquipment = None
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/ConnectivityNodeContainer.py b/CIM14/CDPSM/Balanced/IEC61970/Core/ConnectivityNodeContainer.py
index 3da5745..a2b12e6 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/ConnectivityNodeContainer.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/ConnectivityNodeContainer.py
@@ -50,8 +50,7 @@ class ConnectivityNodeContainer(PowerSystemResource):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/EquipmentContainer.py b/CIM14/CDPSM/Balanced/IEC61970/Core/EquipmentContainer.py
index c48e04f..1c301dd 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/EquipmentContainer.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/EquipmentContainer.py
@@ -50,8 +50,7 @@ class EquipmentContainer(ConnectivityNodeContainer):
         for x in self._Equipments:
             x.EquipmentContainer = None
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/GeographicalRegion.py b/CIM14/CDPSM/Balanced/IEC61970/Core/GeographicalRegion.py
index 0c5f533..de94bd5 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/GeographicalRegion.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/GeographicalRegion.py
@@ -50,8 +50,7 @@ class GeographicalRegion(IdentifiedObject):
         for x in self._Regions:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/PSRType.py b/CIM14/CDPSM/Balanced/IEC61970/Core/PSRType.py
index 4c3c94a..14322c0 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/PSRType.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/PSRType.py
@@ -50,8 +50,7 @@ class PSRType(IdentifiedObject):
         for x in self._PowerSystemResources:
             x.PSRType = None
         for y in value:
-            y._PSRType = self
-        self._PowerSystemResources = value
+            y.PSRType = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/SubGeographicalRegion.py b/CIM14/CDPSM/Balanced/IEC61970/Core/SubGeographicalRegion.py
index 174b196..6ff398b 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/SubGeographicalRegion.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/SubGeographicalRegion.py
@@ -75,8 +75,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Lines:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
@@ -97,8 +96,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Substations:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/Substation.py b/CIM14/CDPSM/Balanced/IEC61970/Core/Substation.py
index 4be54c2..9f75eac 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/Substation.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/Substation.py
@@ -71,8 +71,7 @@ class Substation(EquipmentContainer):
         for x in self._VoltageLevels:
             x.Substation = None
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Core/VoltageLevel.py b/CIM14/CDPSM/Balanced/IEC61970/Core/VoltageLevel.py
index bcad80a..35e9c61 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Core/VoltageLevel.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Core/VoltageLevel.py
@@ -83,8 +83,7 @@ class VoltageLevel(EquipmentContainer):
         for x in self._Bays:
             x.VoltageLevel = None
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py b/CIM14/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py
index b31e60a..23ae7a9 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py
@@ -62,8 +62,7 @@ class GeneratingUnit(Equipment):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py b/CIM14/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
index 2589c27..427cbe4 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
@@ -94,8 +94,7 @@ class LoadResponseCharacteristic(IdentifiedObject):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61970/Topology/ConnectivityNode.py b/CIM14/CDPSM/Balanced/IEC61970/Topology/ConnectivityNode.py
index 667afb1..c5aa279 100644
--- a/CIM14/CDPSM/Balanced/IEC61970/Topology/ConnectivityNode.py
+++ b/CIM14/CDPSM/Balanced/IEC61970/Topology/ConnectivityNode.py
@@ -54,8 +54,7 @@ class ConnectivityNode(IdentifiedObject):
         for x in self._Terminals:
             x.ConnectivityNode = None
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ConductorInfo.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ConductorInfo.py
index 23b651f..688548b 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ConductorInfo.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ConductorInfo.py
@@ -74,8 +74,7 @@ class ConductorInfo(IdentifiedObject):
         for x in self._WireArrangements:
             x.ConductorInfo = None
         for y in value:
-            y._ConductorInfo = self
-        self._WireArrangements = value
+            y.ConductorInfo = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -96,8 +95,7 @@ class ConductorInfo(IdentifiedObject):
         for x in self._ConductorSegments:
             x.ConductorInfo = None
         for y in value:
-            y._ConductorInfo = self
-        self._ConductorSegments = value
+            y.ConductorInfo = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/TransformerInfo.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/TransformerInfo.py
index fabbe7e..a783610 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/TransformerInfo.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/TransformerInfo.py
@@ -50,8 +50,7 @@ class TransformerInfo(IdentifiedObject):
         for x in self._Transformers:
             x.TransformerInfo = None
         for y in value:
-            y._TransformerInfo = self
-        self._Transformers = value
+            y.TransformerInfo = self
 
     Transformers = property(getTransformers, setTransformers)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WindingInfo.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WindingInfo.py
index 5e780ba..66515bf 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WindingInfo.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WindingInfo.py
@@ -70,8 +70,7 @@ class WindingInfo(IdentifiedObject):
         for x in self._WindingTests:
             x.FromWinding = None
         for y in value:
-            y._FromWinding = self
-        self._WindingTests = value
+            y.FromWinding = self
 
     WindingTests = property(getWindingTests, setWindingTests)
 
@@ -92,8 +91,7 @@ class WindingInfo(IdentifiedObject):
         for x in self._ToWindingSpecs:
             x.ToWinding = None
         for y in value:
-            y._ToWinding = self
-        self._ToWindingSpecs = value
+            y.ToWinding = self
 
     ToWindingSpecs = property(getToWindingSpecs, setToWindingSpecs)
 
@@ -114,8 +112,7 @@ class WindingInfo(IdentifiedObject):
         for x in self._Windings:
             x.WindingInfo = None
         for y in value:
-            y._WindingInfo = self
-        self._Windings = value
+            y.WindingInfo = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WireType.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WireType.py
index b354113..bce6650 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WireType.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/WireType.py
@@ -102,8 +102,7 @@ class WireType(IdentifiedObject):
         for x in self._ConcentricNeutralCableInfos:
             x.WireType = None
         for y in value:
-            y._WireType = self
-        self._ConcentricNeutralCableInfos = value
+            y.WireType = self
 
     ConcentricNeutralCableInfos = property(getConcentricNeutralCableInfos, setConcentricNeutralCableInfos)
 
@@ -124,8 +123,7 @@ class WireType(IdentifiedObject):
         for x in self._WireArrangements:
             x.WireType = None
         for y in value:
-            y._WireType = self
-        self._WireArrangements = value
+            y.WireType = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/GeoLocation.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/GeoLocation.py
index e4fdaa8..b2c2bbe 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/GeoLocation.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/GeoLocation.py
@@ -50,8 +50,7 @@ class GeoLocation(Location):
         for x in self._PowerSystemResources:
             x.GeoLocation = None
         for y in value:
-            y._GeoLocation = self
-        self._PowerSystemResources = value
+            y.GeoLocation = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/Location.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/Location.py
index dd52ce6..76b9aa4 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/Location.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/Common/Location.py
@@ -50,8 +50,7 @@ class Location(IdentifiedObject):
         for x in self._PositionPoints:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._PositionPoints = value
+            y.Location = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/DistributionTransformer.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/DistributionTransformer.py
index ff4d563..47a1983 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/DistributionTransformer.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/DistributionTransformer.py
@@ -75,8 +75,7 @@ class DistributionTransformer(Equipment):
         for x in self._Windings:
             x.Transformer = None
         for y in value:
-            y._Transformer = self
-        self._Windings = value
+            y.Transformer = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthPhaseImpedance.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthPhaseImpedance.py
index bc9ba41..c9b5305 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthPhaseImpedance.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthPhaseImpedance.py
@@ -58,8 +58,7 @@ class PerLengthPhaseImpedance(IdentifiedObject):
         for x in self._PhaseImpedanceData:
             x.PhaseImpedance = None
         for y in value:
-            y._PhaseImpedance = self
-        self._PhaseImpedanceData = value
+            y.PhaseImpedance = self
 
     PhaseImpedanceData = property(getPhaseImpedanceData, setPhaseImpedanceData)
 
@@ -80,8 +79,7 @@ class PerLengthPhaseImpedance(IdentifiedObject):
         for x in self._ConductorSegments:
             x.PhaseImpedance = None
         for y in value:
-            y._PhaseImpedance = self
-        self._ConductorSegments = value
+            y.PhaseImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthSequenceImpedance.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthSequenceImpedance.py
index 9ab8870..21ae704 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthSequenceImpedance.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/PerLengthSequenceImpedance.py
@@ -74,8 +74,7 @@ class PerLengthSequenceImpedance(IdentifiedObject):
         for x in self._ConductorSegments:
             x.SequenceImpedance = None
         for y in value:
-            y._SequenceImpedance = self
-        self._ConductorSegments = value
+            y.SequenceImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/TransformerBank.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/TransformerBank.py
index 6ec51b9..b2a2927 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/TransformerBank.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/WiresExt/TransformerBank.py
@@ -50,8 +50,7 @@ class TransformerBank(Equipment):
         for x in self._Transformers:
             x.TransformerBank = None
         for y in value:
-            y._TransformerBank = self
-        self._Transformers = value
+            y.TransformerBank = self
 
     Transformers = property(getTransformers, setTransformers)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/BaseVoltage.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/BaseVoltage.py
index b244e1e..96e06f3 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/BaseVoltage.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/BaseVoltage.py
@@ -58,8 +58,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -80,8 +79,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConductingEquipment.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConductingEquipment.py
index 9c8bb60..859dfa6 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConductingEquipment.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConductingEquipment.py
@@ -58,8 +58,7 @@ class ConductingEquipment(Equipment):
         for x in self._Terminals:
             x.ConductingEquipment = None
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConnectivityNodeContainer.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConnectivityNodeContainer.py
index daa9f82..e1d54c2 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConnectivityNodeContainer.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/ConnectivityNodeContainer.py
@@ -50,8 +50,7 @@ class ConnectivityNodeContainer(PowerSystemResource):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/EquipmentContainer.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/EquipmentContainer.py
index f922b0a..a2a6462 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/EquipmentContainer.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/EquipmentContainer.py
@@ -50,8 +50,7 @@ class EquipmentContainer(ConnectivityNodeContainer):
         for x in self._Equipments:
             x.EquipmentContainer = None
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/GeographicalRegion.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/GeographicalRegion.py
index def6407..81b643c 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/GeographicalRegion.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/GeographicalRegion.py
@@ -50,8 +50,7 @@ class GeographicalRegion(IdentifiedObject):
         for x in self._Regions:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/PSRType.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/PSRType.py
index 605f513..2ae6933 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/PSRType.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/PSRType.py
@@ -50,8 +50,7 @@ class PSRType(IdentifiedObject):
         for x in self._PowerSystemResources:
             x.PSRType = None
         for y in value:
-            y._PSRType = self
-        self._PowerSystemResources = value
+            y.PSRType = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/SubGeographicalRegion.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/SubGeographicalRegion.py
index 0030c24..a45411c 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/SubGeographicalRegion.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/SubGeographicalRegion.py
@@ -75,8 +75,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Lines:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
@@ -97,8 +96,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Substations:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/Substation.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/Substation.py
index a698915..3b3e397 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/Substation.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/Substation.py
@@ -71,8 +71,7 @@ class Substation(EquipmentContainer):
         for x in self._VoltageLevels:
             x.Substation = None
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/VoltageLevel.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/VoltageLevel.py
index 3854ac3..51eb9a8 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/VoltageLevel.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Core/VoltageLevel.py
@@ -83,8 +83,7 @@ class VoltageLevel(EquipmentContainer):
         for x in self._Bays:
             x.VoltageLevel = None
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Generation/Production/GeneratingUnit.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Generation/Production/GeneratingUnit.py
index 1647a13..49de34f 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Generation/Production/GeneratingUnit.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Generation/Production/GeneratingUnit.py
@@ -62,8 +62,7 @@ class GeneratingUnit(Equipment):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Topology/ConnectivityNode.py b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Topology/ConnectivityNode.py
index 6e25ecd..dec7d28 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61970/Topology/ConnectivityNode.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61970/Topology/ConnectivityNode.py
@@ -54,8 +54,7 @@ class ConnectivityNode(IdentifiedObject):
         for x in self._Terminals:
             x.ConnectivityNode = None
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ConductorInfo.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ConductorInfo.py
index d066fa7..e9fd9a5 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ConductorInfo.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ConductorInfo.py
@@ -74,8 +74,7 @@ class ConductorInfo(IdentifiedObject):
         for x in self._WireArrangements:
             x.ConductorInfo = None
         for y in value:
-            y._ConductorInfo = self
-        self._WireArrangements = value
+            y.ConductorInfo = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -96,8 +95,7 @@ class ConductorInfo(IdentifiedObject):
         for x in self._ConductorSegments:
             x.ConductorInfo = None
         for y in value:
-            y._ConductorInfo = self
-        self._ConductorSegments = value
+            y.ConductorInfo = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/TransformerInfo.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/TransformerInfo.py
index 5872c98..38774cc 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/TransformerInfo.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/TransformerInfo.py
@@ -54,8 +54,7 @@ class TransformerInfo(IdentifiedObject):
         for x in self._Transformers:
             x.TransformerInfo = None
         for y in value:
-            y._TransformerInfo = self
-        self._Transformers = value
+            y.TransformerInfo = self
 
     Transformers = property(getTransformers, setTransformers)
 
@@ -76,8 +75,7 @@ class TransformerInfo(IdentifiedObject):
         for x in self._WindingInfos:
             x.TransformerInfo = None
         for y in value:
-            y._TransformerInfo = self
-        self._WindingInfos = value
+            y.TransformerInfo = self
 
     WindingInfos = property(getWindingInfos, setWindingInfos)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WindingInfo.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WindingInfo.py
index e4e713c..5ad66df 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WindingInfo.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WindingInfo.py
@@ -98,8 +98,7 @@ class WindingInfo(IdentifiedObject):
         for x in self._WindingTests:
             x.FromWinding = None
         for y in value:
-            y._FromWinding = self
-        self._WindingTests = value
+            y.FromWinding = self
 
     WindingTests = property(getWindingTests, setWindingTests)
 
@@ -120,8 +119,7 @@ class WindingInfo(IdentifiedObject):
         for x in self._ToWindingSpecs:
             x.ToWinding = None
         for y in value:
-            y._ToWinding = self
-        self._ToWindingSpecs = value
+            y.ToWinding = self
 
     ToWindingSpecs = property(getToWindingSpecs, setToWindingSpecs)
 
@@ -159,8 +157,7 @@ class WindingInfo(IdentifiedObject):
         for x in self._Windings:
             x.WindingInfo = None
         for y in value:
-            y._WindingInfo = self
-        self._Windings = value
+            y.WindingInfo = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WireType.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WireType.py
index 8b353db..461cdd4 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WireType.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/WireType.py
@@ -102,8 +102,7 @@ class WireType(IdentifiedObject):
         for x in self._ConcentricNeutralCableInfos:
             x.WireType = None
         for y in value:
-            y._WireType = self
-        self._ConcentricNeutralCableInfos = value
+            y.WireType = self
 
     ConcentricNeutralCableInfos = property(getConcentricNeutralCableInfos, setConcentricNeutralCableInfos)
 
@@ -124,8 +123,7 @@ class WireType(IdentifiedObject):
         for x in self._WireArrangements:
             x.WireType = None
         for y in value:
-            y._WireType = self
-        self._WireArrangements = value
+            y.WireType = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/Common/GeoLocation.py b/CIM14/CDPSM/Unbalanced/IEC61968/Common/GeoLocation.py
index b0a1ad7..913c440 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/Common/GeoLocation.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/Common/GeoLocation.py
@@ -50,8 +50,7 @@ class GeoLocation(Location):
         for x in self._PowerSystemResources:
             x.GeoLocation = None
         for y in value:
-            y._GeoLocation = self
-        self._PowerSystemResources = value
+            y.GeoLocation = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/Common/Location.py b/CIM14/CDPSM/Unbalanced/IEC61968/Common/Location.py
index 3f4ab02..a81d0bc 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/Common/Location.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/Common/Location.py
@@ -50,8 +50,7 @@ class Location(IdentifiedObject):
         for x in self._PositionPoints:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._PositionPoints = value
+            y.Location = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/DistributionTransformer.py b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/DistributionTransformer.py
index 7044de1..f3f8afa 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/DistributionTransformer.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/DistributionTransformer.py
@@ -75,8 +75,7 @@ class DistributionTransformer(Equipment):
         for x in self._Windings:
             x.Transformer = None
         for y in value:
-            y._Transformer = self
-        self._Windings = value
+            y.Transformer = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py
index 441da9b..f8a173c 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthPhaseImpedance.py
@@ -58,8 +58,7 @@ class PerLengthPhaseImpedance(IdentifiedObject):
         for x in self._PhaseImpedanceData:
             x.PhaseImpedance = None
         for y in value:
-            y._PhaseImpedance = self
-        self._PhaseImpedanceData = value
+            y.PhaseImpedance = self
 
     PhaseImpedanceData = property(getPhaseImpedanceData, setPhaseImpedanceData)
 
@@ -80,8 +79,7 @@ class PerLengthPhaseImpedance(IdentifiedObject):
         for x in self._ConductorSegments:
             x.PhaseImpedance = None
         for y in value:
-            y._PhaseImpedance = self
-        self._ConductorSegments = value
+            y.PhaseImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py
index 9e0f685..2b8bbe2 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/PerLengthSequenceImpedance.py
@@ -74,8 +74,7 @@ class PerLengthSequenceImpedance(IdentifiedObject):
         for x in self._ConductorSegments:
             x.SequenceImpedance = None
         for y in value:
-            y._SequenceImpedance = self
-        self._ConductorSegments = value
+            y.SequenceImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/TransformerBank.py b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/TransformerBank.py
index 3af4e95..0d5d56e 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/TransformerBank.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/TransformerBank.py
@@ -54,8 +54,7 @@ class TransformerBank(Equipment):
         for x in self._Transformers:
             x.TransformerBank = None
         for y in value:
-            y._TransformerBank = self
-        self._Transformers = value
+            y.TransformerBank = self
 
     Transformers = property(getTransformers, setTransformers)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/WindingPiImpedance.py b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/WindingPiImpedance.py
index e762890..4f6337d 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/WindingPiImpedance.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/WiresExt/WindingPiImpedance.py
@@ -82,8 +82,7 @@ class WindingPiImpedance(IdentifiedObject):
         for x in self._Windings:
             x.PiImpedance = None
         for y in value:
-            y._PiImpedance = self
-        self._Windings = value
+            y.PiImpedance = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/BaseVoltage.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/BaseVoltage.py
index 22912fa..b278367 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/BaseVoltage.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/BaseVoltage.py
@@ -58,8 +58,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -80,8 +79,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConductingEquipment.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConductingEquipment.py
index 5afb5de..12b523a 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConductingEquipment.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConductingEquipment.py
@@ -58,8 +58,7 @@ class ConductingEquipment(Equipment):
         for x in self._Terminals:
             x.ConductingEquipment = None
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConnectivityNodeContainer.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConnectivityNodeContainer.py
index cb5e940..8c30dda 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConnectivityNodeContainer.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/ConnectivityNodeContainer.py
@@ -50,8 +50,7 @@ class ConnectivityNodeContainer(PowerSystemResource):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/EquipmentContainer.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/EquipmentContainer.py
index c04925b..f552748 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/EquipmentContainer.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/EquipmentContainer.py
@@ -50,8 +50,7 @@ class EquipmentContainer(ConnectivityNodeContainer):
         for x in self._Equipments:
             x.EquipmentContainer = None
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/GeographicalRegion.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/GeographicalRegion.py
index ce65a74..03cdbf3 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/GeographicalRegion.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/GeographicalRegion.py
@@ -50,8 +50,7 @@ class GeographicalRegion(IdentifiedObject):
         for x in self._Regions:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/PSRType.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/PSRType.py
index 3616dd9..1df7676 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/PSRType.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/PSRType.py
@@ -50,8 +50,7 @@ class PSRType(IdentifiedObject):
         for x in self._PowerSystemResources:
             x.PSRType = None
         for y in value:
-            y._PSRType = self
-        self._PowerSystemResources = value
+            y.PSRType = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/SubGeographicalRegion.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/SubGeographicalRegion.py
index 8db37aa..d75439b 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/SubGeographicalRegion.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/SubGeographicalRegion.py
@@ -75,8 +75,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Lines:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
@@ -97,8 +96,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Substations:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/Substation.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/Substation.py
index 29687e1..fa9310c 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/Substation.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/Substation.py
@@ -71,8 +71,7 @@ class Substation(EquipmentContainer):
         for x in self._VoltageLevels:
             x.Substation = None
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Core/VoltageLevel.py b/CIM14/CDPSM/Unbalanced/IEC61970/Core/VoltageLevel.py
index f4b7d30..55afc9c 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Core/VoltageLevel.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Core/VoltageLevel.py
@@ -83,8 +83,7 @@ class VoltageLevel(EquipmentContainer):
         for x in self._Bays:
             x.VoltageLevel = None
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Generation/Production/GeneratingUnit.py b/CIM14/CDPSM/Unbalanced/IEC61970/Generation/Production/GeneratingUnit.py
index 4e5d64f..f56851a 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Generation/Production/GeneratingUnit.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Generation/Production/GeneratingUnit.py
@@ -62,8 +62,7 @@ class GeneratingUnit(Equipment):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/LoadModel/LoadResponseCharacteristic.py b/CIM14/CDPSM/Unbalanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
index 99dbfc2..008a08c 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
@@ -94,8 +94,7 @@ class LoadResponseCharacteristic(IdentifiedObject):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61970/Topology/ConnectivityNode.py b/CIM14/CDPSM/Unbalanced/IEC61970/Topology/ConnectivityNode.py
index a1dc762..0f4280c 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61970/Topology/ConnectivityNode.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61970/Topology/ConnectivityNode.py
@@ -54,8 +54,7 @@ class ConnectivityNode(IdentifiedObject):
         for x in self._Terminals:
             x.ConnectivityNode = None
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CPSM/Equipment/ControlArea/ControlArea.py b/CIM14/CPSM/Equipment/ControlArea/ControlArea.py
index f1ade1b..91ccc8b 100644
--- a/CIM14/CPSM/Equipment/ControlArea/ControlArea.py
+++ b/CIM14/CPSM/Equipment/ControlArea/ControlArea.py
@@ -70,8 +70,7 @@ class ControlArea(PowerSystemResource):
         for x in self._ControlAreaGeneratingUnit:
             x.ControlArea = None
         for y in value:
-            y._ControlArea = self
-        self._ControlAreaGeneratingUnit = value
+            y.ControlArea = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
@@ -108,8 +107,7 @@ class ControlArea(PowerSystemResource):
         for x in self._TieFlow:
             x.ControlArea = None
         for y in value:
-            y._ControlArea = self
-        self._TieFlow = value
+            y.ControlArea = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
diff --git a/CIM14/CPSM/Equipment/Core/BaseVoltage.py b/CIM14/CPSM/Equipment/Core/BaseVoltage.py
index 356b8ef..cc2288f 100644
--- a/CIM14/CPSM/Equipment/Core/BaseVoltage.py
+++ b/CIM14/CPSM/Equipment/Core/BaseVoltage.py
@@ -58,8 +58,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -80,8 +79,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
diff --git a/CIM14/CPSM/Equipment/Core/ConductingEquipment.py b/CIM14/CPSM/Equipment/Core/ConductingEquipment.py
index 9d64354..473cfcf 100644
--- a/CIM14/CPSM/Equipment/Core/ConductingEquipment.py
+++ b/CIM14/CPSM/Equipment/Core/ConductingEquipment.py
@@ -54,8 +54,7 @@ class ConductingEquipment(Equipment):
         for x in self._Terminals:
             x.ConductingEquipment = None
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CPSM/Equipment/Core/ConnectivityNode.py b/CIM14/CPSM/Equipment/Core/ConnectivityNode.py
index 3fb7381..73a444b 100644
--- a/CIM14/CPSM/Equipment/Core/ConnectivityNode.py
+++ b/CIM14/CPSM/Equipment/Core/ConnectivityNode.py
@@ -54,8 +54,7 @@ class ConnectivityNode(IdentifiedObject):
         for x in self._Terminals:
             x.ConnectivityNode = None
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/CPSM/Equipment/Core/ConnectivityNodeContainer.py b/CIM14/CPSM/Equipment/Core/ConnectivityNodeContainer.py
index 04e020b..fe81036 100644
--- a/CIM14/CPSM/Equipment/Core/ConnectivityNodeContainer.py
+++ b/CIM14/CPSM/Equipment/Core/ConnectivityNodeContainer.py
@@ -50,8 +50,7 @@ class ConnectivityNodeContainer(PowerSystemResource):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM14/CPSM/Equipment/Core/Curve.py b/CIM14/CPSM/Equipment/Core/Curve.py
index 609c6d3..a82bcc6 100644
--- a/CIM14/CPSM/Equipment/Core/Curve.py
+++ b/CIM14/CPSM/Equipment/Core/Curve.py
@@ -70,8 +70,7 @@ class Curve(IdentifiedObject):
         for x in self._CurveDatas:
             x.Curve = None
         for y in value:
-            y._Curve = self
-        self._CurveDatas = value
+            y.Curve = self
 
     CurveDatas = property(getCurveDatas, setCurveDatas)
 
diff --git a/CIM14/CPSM/Equipment/Core/Equipment.py b/CIM14/CPSM/Equipment/Core/Equipment.py
index 41baacb..41c2c92 100644
--- a/CIM14/CPSM/Equipment/Core/Equipment.py
+++ b/CIM14/CPSM/Equipment/Core/Equipment.py
@@ -58,8 +58,7 @@ class Equipment(PowerSystemResource):
         for x in self._OperationalLimitSet:
             x.Equipment = None
         for y in value:
-            y._Equipment = self
-        self._OperationalLimitSet = value
+            y.Equipment = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
diff --git a/CIM14/CPSM/Equipment/Core/EquipmentContainer.py b/CIM14/CPSM/Equipment/Core/EquipmentContainer.py
index c0119b5..07ff770 100644
--- a/CIM14/CPSM/Equipment/Core/EquipmentContainer.py
+++ b/CIM14/CPSM/Equipment/Core/EquipmentContainer.py
@@ -50,8 +50,7 @@ class EquipmentContainer(ConnectivityNodeContainer):
         for x in self._Equipments:
             x.EquipmentContainer = None
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/CPSM/Equipment/Core/GeographicalRegion.py b/CIM14/CPSM/Equipment/Core/GeographicalRegion.py
index 69cf219..39c2219 100644
--- a/CIM14/CPSM/Equipment/Core/GeographicalRegion.py
+++ b/CIM14/CPSM/Equipment/Core/GeographicalRegion.py
@@ -50,8 +50,7 @@ class GeographicalRegion(IdentifiedObject):
         for x in self._Regions:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM14/CPSM/Equipment/Core/PowerSystemResource.py b/CIM14/CPSM/Equipment/Core/PowerSystemResource.py
index df89656..8c6c8ab 100644
--- a/CIM14/CPSM/Equipment/Core/PowerSystemResource.py
+++ b/CIM14/CPSM/Equipment/Core/PowerSystemResource.py
@@ -50,8 +50,7 @@ class PowerSystemResource(IdentifiedObject):
         for x in self._Measurements:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._Measurements = value
+            y.PowerSystemResource = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/CPSM/Equipment/Core/RegularIntervalSchedule.py b/CIM14/CPSM/Equipment/Core/RegularIntervalSchedule.py
index 156941f..7e62988 100644
--- a/CIM14/CPSM/Equipment/Core/RegularIntervalSchedule.py
+++ b/CIM14/CPSM/Equipment/Core/RegularIntervalSchedule.py
@@ -58,8 +58,7 @@ class RegularIntervalSchedule(BasicIntervalSchedule):
         for x in self._TimePoints:
             x.IntervalSchedule = None
         for y in value:
-            y._IntervalSchedule = self
-        self._TimePoints = value
+            y.IntervalSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM14/CPSM/Equipment/Core/SubGeographicalRegion.py b/CIM14/CPSM/Equipment/Core/SubGeographicalRegion.py
index b8ae44b..6442dd1 100644
--- a/CIM14/CPSM/Equipment/Core/SubGeographicalRegion.py
+++ b/CIM14/CPSM/Equipment/Core/SubGeographicalRegion.py
@@ -75,8 +75,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Lines:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
@@ -97,8 +96,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Substations:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
diff --git a/CIM14/CPSM/Equipment/Core/Substation.py b/CIM14/CPSM/Equipment/Core/Substation.py
index fd795c6..35dff88 100644
--- a/CIM14/CPSM/Equipment/Core/Substation.py
+++ b/CIM14/CPSM/Equipment/Core/Substation.py
@@ -71,8 +71,7 @@ class Substation(EquipmentContainer):
         for x in self._VoltageLevels:
             x.Substation = None
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
diff --git a/CIM14/CPSM/Equipment/Core/Terminal.py b/CIM14/CPSM/Equipment/Core/Terminal.py
index 094b30b..dfb7921 100644
--- a/CIM14/CPSM/Equipment/Core/Terminal.py
+++ b/CIM14/CPSM/Equipment/Core/Terminal.py
@@ -82,8 +82,7 @@ class Terminal(IdentifiedObject):
         for x in self._OperationalLimitSet:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._OperationalLimitSet = value
+            y.Terminal = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
@@ -121,8 +120,7 @@ class Terminal(IdentifiedObject):
         for x in self._HasFirst_MutualCoupling:
             x.First_Terminal = None
         for y in value:
-            y._First_Terminal = self
-        self._HasFirst_MutualCoupling = value
+            y.First_Terminal = self
 
     HasFirst_MutualCoupling = property(getHasFirst_MutualCoupling, setHasFirst_MutualCoupling)
 
@@ -143,8 +141,7 @@ class Terminal(IdentifiedObject):
         for x in self._Measurements:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._Measurements = value
+            y.Terminal = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -182,8 +179,7 @@ class Terminal(IdentifiedObject):
         for x in self._RegulatingControl:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._RegulatingControl = value
+            y.Terminal = self
 
     RegulatingControl = property(getRegulatingControl, setRegulatingControl)
 
@@ -204,8 +200,7 @@ class Terminal(IdentifiedObject):
         for x in self._TieFlow:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._TieFlow = value
+            y.Terminal = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
@@ -226,8 +221,7 @@ class Terminal(IdentifiedObject):
         for x in self._HasSecond_MutualCoupling:
             x.Second_Terminal = None
         for y in value:
-            y._Second_Terminal = self
-        self._HasSecond_MutualCoupling = value
+            y.Second_Terminal = self
 
     HasSecond_MutualCoupling = property(getHasSecond_MutualCoupling, setHasSecond_MutualCoupling)
 
diff --git a/CIM14/CPSM/Equipment/Core/Unit.py b/CIM14/CPSM/Equipment/Core/Unit.py
index 40a5184..84aff45 100644
--- a/CIM14/CPSM/Equipment/Core/Unit.py
+++ b/CIM14/CPSM/Equipment/Core/Unit.py
@@ -50,8 +50,7 @@ class Unit(IdentifiedObject):
         for x in self._Measurements:
             x.Unit = None
         for y in value:
-            y._Unit = self
-        self._Measurements = value
+            y.Unit = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/CPSM/Equipment/Core/VoltageLevel.py b/CIM14/CPSM/Equipment/Core/VoltageLevel.py
index 3dff110..0b304cc 100644
--- a/CIM14/CPSM/Equipment/Core/VoltageLevel.py
+++ b/CIM14/CPSM/Equipment/Core/VoltageLevel.py
@@ -83,8 +83,7 @@ class VoltageLevel(EquipmentContainer):
         for x in self._Bays:
             x.VoltageLevel = None
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM14/CPSM/Equipment/Equivalents/EquivalentNetwork.py b/CIM14/CPSM/Equipment/Equivalents/EquivalentNetwork.py
index aff989f..24ed07d 100644
--- a/CIM14/CPSM/Equipment/Equivalents/EquivalentNetwork.py
+++ b/CIM14/CPSM/Equipment/Equivalents/EquivalentNetwork.py
@@ -50,8 +50,7 @@ class EquivalentNetwork(ConnectivityNodeContainer):
         for x in self._EquivalentEquipments:
             x.EquivalentNetwork = None
         for y in value:
-            y._EquivalentNetwork = self
-        self._EquivalentEquipments = value
+            y.EquivalentNetwork = self
 
     EquivalentEquipments = property(getEquivalentEquipments, setEquivalentEquipments)
 
diff --git a/CIM14/CPSM/Equipment/Generation/Production/GeneratingUnit.py b/CIM14/CPSM/Equipment/Generation/Production/GeneratingUnit.py
index e4aec15..b665ed2 100644
--- a/CIM14/CPSM/Equipment/Generation/Production/GeneratingUnit.py
+++ b/CIM14/CPSM/Equipment/Generation/Production/GeneratingUnit.py
@@ -118,8 +118,7 @@ class GeneratingUnit(Equipment):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
@@ -140,8 +139,7 @@ class GeneratingUnit(Equipment):
         for x in self._ControlAreaGeneratingUnit:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._ControlAreaGeneratingUnit = value
+            y.GeneratingUnit = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
@@ -162,8 +160,7 @@ class GeneratingUnit(Equipment):
         for x in self._GrossToNetActivePowerCurves:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._GrossToNetActivePowerCurves = value
+            y.GeneratingUnit = self
 
     GrossToNetActivePowerCurves = property(getGrossToNetActivePowerCurves, setGrossToNetActivePowerCurves)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/ConformLoadGroup.py b/CIM14/CPSM/Equipment/LoadModel/ConformLoadGroup.py
index 754bc73..83d5cfd 100644
--- a/CIM14/CPSM/Equipment/LoadModel/ConformLoadGroup.py
+++ b/CIM14/CPSM/Equipment/LoadModel/ConformLoadGroup.py
@@ -54,8 +54,7 @@ class ConformLoadGroup(LoadGroup):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
@@ -76,8 +75,7 @@ class ConformLoadGroup(LoadGroup):
         for x in self._ConformLoadSchedules:
             x.ConformLoadGroup = None
         for y in value:
-            y._ConformLoadGroup = self
-        self._ConformLoadSchedules = value
+            y.ConformLoadGroup = self
 
     ConformLoadSchedules = property(getConformLoadSchedules, setConformLoadSchedules)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/DayType.py b/CIM14/CPSM/Equipment/LoadModel/DayType.py
index 57fb14e..f26a2cd 100644
--- a/CIM14/CPSM/Equipment/LoadModel/DayType.py
+++ b/CIM14/CPSM/Equipment/LoadModel/DayType.py
@@ -50,8 +50,7 @@ class DayType(IdentifiedObject):
         for x in self._SeasonDayTypeSchedules:
             x.DayType = None
         for y in value:
-            y._DayType = self
-        self._SeasonDayTypeSchedules = value
+            y.DayType = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/LoadArea.py b/CIM14/CPSM/Equipment/LoadModel/LoadArea.py
index edf328f..df1871e 100644
--- a/CIM14/CPSM/Equipment/LoadModel/LoadArea.py
+++ b/CIM14/CPSM/Equipment/LoadModel/LoadArea.py
@@ -50,8 +50,7 @@ class LoadArea(EnergyArea):
         for x in self._SubLoadAreas:
             x.LoadArea = None
         for y in value:
-            y._LoadArea = self
-        self._SubLoadAreas = value
+            y.LoadArea = self
 
     SubLoadAreas = property(getSubLoadAreas, setSubLoadAreas)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/LoadResponseCharacteristic.py b/CIM14/CPSM/Equipment/LoadModel/LoadResponseCharacteristic.py
index 9e672c6..f28426c 100644
--- a/CIM14/CPSM/Equipment/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM14/CPSM/Equipment/LoadModel/LoadResponseCharacteristic.py
@@ -94,8 +94,7 @@ class LoadResponseCharacteristic(IdentifiedObject):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/NonConformLoadGroup.py b/CIM14/CPSM/Equipment/LoadModel/NonConformLoadGroup.py
index e605d28..adfdca0 100644
--- a/CIM14/CPSM/Equipment/LoadModel/NonConformLoadGroup.py
+++ b/CIM14/CPSM/Equipment/LoadModel/NonConformLoadGroup.py
@@ -54,8 +54,7 @@ class NonConformLoadGroup(LoadGroup):
         for x in self._NonConformLoadSchedules:
             x.NonConformLoadGroup = None
         for y in value:
-            y._NonConformLoadGroup = self
-        self._NonConformLoadSchedules = value
+            y.NonConformLoadGroup = self
 
     NonConformLoadSchedules = property(getNonConformLoadSchedules, setNonConformLoadSchedules)
 
@@ -76,8 +75,7 @@ class NonConformLoadGroup(LoadGroup):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/Season.py b/CIM14/CPSM/Equipment/LoadModel/Season.py
index bb77d91..7d0cdd8 100644
--- a/CIM14/CPSM/Equipment/LoadModel/Season.py
+++ b/CIM14/CPSM/Equipment/LoadModel/Season.py
@@ -62,8 +62,7 @@ class Season(Element):
         for x in self._SeasonDayTypeSchedules:
             x.Season = None
         for y in value:
-            y._Season = self
-        self._SeasonDayTypeSchedules = value
+            y.Season = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM14/CPSM/Equipment/LoadModel/SubLoadArea.py b/CIM14/CPSM/Equipment/LoadModel/SubLoadArea.py
index 819c97d..eb9e973 100644
--- a/CIM14/CPSM/Equipment/LoadModel/SubLoadArea.py
+++ b/CIM14/CPSM/Equipment/LoadModel/SubLoadArea.py
@@ -54,8 +54,7 @@ class SubLoadArea(EnergyArea):
         for x in self._LoadGroups:
             x.SubLoadArea = None
         for y in value:
-            y._SubLoadArea = self
-        self._LoadGroups = value
+            y.SubLoadArea = self
 
     LoadGroups = property(getLoadGroups, setLoadGroups)
 
diff --git a/CIM14/CPSM/Equipment/Meas/Accumulator.py b/CIM14/CPSM/Equipment/Meas/Accumulator.py
index 675f2fb..ba1696e 100644
--- a/CIM14/CPSM/Equipment/Meas/Accumulator.py
+++ b/CIM14/CPSM/Equipment/Meas/Accumulator.py
@@ -50,8 +50,7 @@ class Accumulator(Measurement):
         for x in self._AccumulatorValues:
             x.Accumulator = None
         for y in value:
-            y._Accumulator = self
-        self._AccumulatorValues = value
+            y.Accumulator = self
 
     AccumulatorValues = property(getAccumulatorValues, setAccumulatorValues)
 
diff --git a/CIM14/CPSM/Equipment/Meas/Analog.py b/CIM14/CPSM/Equipment/Meas/Analog.py
index 5d8edd5..8af44ae 100644
--- a/CIM14/CPSM/Equipment/Meas/Analog.py
+++ b/CIM14/CPSM/Equipment/Meas/Analog.py
@@ -54,8 +54,7 @@ class Analog(Measurement):
         for x in self._AnalogValues:
             x.Analog = None
         for y in value:
-            y._Analog = self
-        self._AnalogValues = value
+            y.Analog = self
 
     AnalogValues = property(getAnalogValues, setAnalogValues)
 
diff --git a/CIM14/CPSM/Equipment/Meas/Discrete.py b/CIM14/CPSM/Equipment/Meas/Discrete.py
index 1aaa558..a15407d 100644
--- a/CIM14/CPSM/Equipment/Meas/Discrete.py
+++ b/CIM14/CPSM/Equipment/Meas/Discrete.py
@@ -50,8 +50,7 @@ class Discrete(Measurement):
         for x in self._DiscreteValues:
             x.Discrete = None
         for y in value:
-            y._Discrete = self
-        self._DiscreteValues = value
+            y.Discrete = self
 
     DiscreteValues = property(getDiscreteValues, setDiscreteValues)
 
diff --git a/CIM14/CPSM/Equipment/Meas/MeasurementValueSource.py b/CIM14/CPSM/Equipment/Meas/MeasurementValueSource.py
index 5156847..dbf997e 100644
--- a/CIM14/CPSM/Equipment/Meas/MeasurementValueSource.py
+++ b/CIM14/CPSM/Equipment/Meas/MeasurementValueSource.py
@@ -50,8 +50,7 @@ class MeasurementValueSource(IdentifiedObject):
         for x in self._MeasurementValues:
             x.MeasurementValueSource = None
         for y in value:
-            y._MeasurementValueSource = self
-        self._MeasurementValues = value
+            y.MeasurementValueSource = self
 
     MeasurementValues = property(getMeasurementValues, setMeasurementValues)
 
diff --git a/CIM14/CPSM/Equipment/OperationalLimits/OperationalLimitSet.py b/CIM14/CPSM/Equipment/OperationalLimits/OperationalLimitSet.py
index 1c9cf41..a9d3155 100644
--- a/CIM14/CPSM/Equipment/OperationalLimits/OperationalLimitSet.py
+++ b/CIM14/CPSM/Equipment/OperationalLimits/OperationalLimitSet.py
@@ -92,8 +92,7 @@ class OperationalLimitSet(IdentifiedObject):
         for x in self._OperationalLimitValue:
             x.OperationalLimitSet = None
         for y in value:
-            y._OperationalLimitSet = self
-        self._OperationalLimitValue = value
+            y.OperationalLimitSet = self
 
     OperationalLimitValue = property(getOperationalLimitValue, setOperationalLimitValue)
 
diff --git a/CIM14/CPSM/Equipment/Wires/PowerTransformer.py b/CIM14/CPSM/Equipment/Wires/PowerTransformer.py
index a8493f5..a197489 100644
--- a/CIM14/CPSM/Equipment/Wires/PowerTransformer.py
+++ b/CIM14/CPSM/Equipment/Wires/PowerTransformer.py
@@ -50,8 +50,7 @@ class PowerTransformer(Equipment):
         for x in self._TransformerWindings:
             x.PowerTransformer = None
         for y in value:
-            y._PowerTransformer = self
-        self._TransformerWindings = value
+            y.PowerTransformer = self
 
     TransformerWindings = property(getTransformerWindings, setTransformerWindings)
 
diff --git a/CIM14/CPSM/Equipment/Wires/ReactiveCapabilityCurve.py b/CIM14/CPSM/Equipment/Wires/ReactiveCapabilityCurve.py
index 73b623a..8140632 100644
--- a/CIM14/CPSM/Equipment/Wires/ReactiveCapabilityCurve.py
+++ b/CIM14/CPSM/Equipment/Wires/ReactiveCapabilityCurve.py
@@ -50,8 +50,7 @@ class ReactiveCapabilityCurve(Curve):
         for x in self._InitiallyUsedBySynchronousMachines:
             x.InitialReactiveCapabilityCurve = None
         for y in value:
-            y._InitialReactiveCapabilityCurve = self
-        self._InitiallyUsedBySynchronousMachines = value
+            y.InitialReactiveCapabilityCurve = self
 
     InitiallyUsedBySynchronousMachines = property(getInitiallyUsedBySynchronousMachines, setInitiallyUsedBySynchronousMachines)
 
diff --git a/CIM14/CPSM/Equipment/Wires/RegulatingControl.py b/CIM14/CPSM/Equipment/Wires/RegulatingControl.py
index fd05068..ac6afad 100644
--- a/CIM14/CPSM/Equipment/Wires/RegulatingControl.py
+++ b/CIM14/CPSM/Equipment/Wires/RegulatingControl.py
@@ -78,8 +78,7 @@ class RegulatingControl(PowerSystemResource):
         for x in self._RegulationSchedule:
             x.RegulatingControl = None
         for y in value:
-            y._RegulatingControl = self
-        self._RegulationSchedule = value
+            y.RegulatingControl = self
 
     RegulationSchedule = property(getRegulationSchedule, setRegulationSchedule)
 
@@ -117,8 +116,7 @@ class RegulatingControl(PowerSystemResource):
         for x in self._RegulatingCondEq:
             x.RegulatingControl = None
         for y in value:
-            y._RegulatingControl = self
-        self._RegulatingCondEq = value
+            y.RegulatingControl = self
 
     RegulatingCondEq = property(getRegulatingCondEq, setRegulatingCondEq)
 
@@ -139,8 +137,7 @@ class RegulatingControl(PowerSystemResource):
         for x in self._TapChanger:
             x.RegulatingControl = None
         for y in value:
-            y._RegulatingControl = self
-        self._TapChanger = value
+            y.RegulatingControl = self
 
     TapChanger = property(getTapChanger, setTapChanger)
 
diff --git a/CIM14/CPSM/Equipment/Wires/Switch.py b/CIM14/CPSM/Equipment/Wires/Switch.py
index 037b0ca..9742ed1 100644
--- a/CIM14/CPSM/Equipment/Wires/Switch.py
+++ b/CIM14/CPSM/Equipment/Wires/Switch.py
@@ -54,8 +54,7 @@ class Switch(ConductingEquipment):
         for x in self._SwitchSchedules:
             x.Switch = None
         for y in value:
-            y._Switch = self
-        self._SwitchSchedules = value
+            y.Switch = self
 
     SwitchSchedules = property(getSwitchSchedules, setSwitchSchedules)
 
diff --git a/CIM14/CPSM/Equipment/Wires/TapChanger.py b/CIM14/CPSM/Equipment/Wires/TapChanger.py
index f8aa63c..6b2bebf 100644
--- a/CIM14/CPSM/Equipment/Wires/TapChanger.py
+++ b/CIM14/CPSM/Equipment/Wires/TapChanger.py
@@ -90,8 +90,7 @@ class TapChanger(PowerSystemResource):
         for x in self._TapSchedules:
             x.TapChanger = None
         for y in value:
-            y._TapChanger = self
-        self._TapSchedules = value
+            y.TapChanger = self
 
     TapSchedules = property(getTapSchedules, setTapSchedules)
 
diff --git a/CIM14/CPSM/StateVariables/StateVariables/TopologicalIsland.py b/CIM14/CPSM/StateVariables/StateVariables/TopologicalIsland.py
index 2aed487..d370c47 100644
--- a/CIM14/CPSM/StateVariables/StateVariables/TopologicalIsland.py
+++ b/CIM14/CPSM/StateVariables/StateVariables/TopologicalIsland.py
@@ -70,8 +70,7 @@ class TopologicalIsland(Element):
         for x in self._TopologicalNodes:
             x.TopologicalIsland = None
         for y in value:
-            y._TopologicalIsland = self
-        self._TopologicalNodes = value
+            y.TopologicalIsland = self
 
     TopologicalNodes = property(getTopologicalNodes, setTopologicalNodes)
 
diff --git a/CIM14/CPSM/Topology/Core/BaseVoltage.py b/CIM14/CPSM/Topology/Core/BaseVoltage.py
index 49126f3..8f2a362 100644
--- a/CIM14/CPSM/Topology/Core/BaseVoltage.py
+++ b/CIM14/CPSM/Topology/Core/BaseVoltage.py
@@ -50,8 +50,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._TopologicalNode:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._TopologicalNode = value
+            y.BaseVoltage = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
diff --git a/CIM14/CPSM/Topology/Topology/TopologicalNode.py b/CIM14/CPSM/Topology/Topology/TopologicalNode.py
index b901be0..97a769f 100644
--- a/CIM14/CPSM/Topology/Topology/TopologicalNode.py
+++ b/CIM14/CPSM/Topology/Topology/TopologicalNode.py
@@ -58,8 +58,7 @@ class TopologicalNode(IdentifiedObject):
         for x in self._ConnectivityNodes:
             x.TopologicalNode = None
         for y in value:
-            y._TopologicalNode = self
-        self._ConnectivityNodes = value
+            y.TopologicalNode = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
@@ -97,8 +96,7 @@ class TopologicalNode(IdentifiedObject):
         for x in self._Terminal:
             x.TopologicalNode = None
         for y in value:
-            y._TopologicalNode = self
-        self._Terminal = value
+            y.TopologicalNode = self
 
     Terminal = property(getTerminal, setTerminal)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61968/Common/CommonLocation.py b/CIM14/ENTSOE/Dynamics/IEC61968/Common/CommonLocation.py
index 0901f36..debc1fc 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61968/Common/CommonLocation.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61968/Common/CommonLocation.py
@@ -48,8 +48,7 @@ class CommonLocation(CoreIdentifiedObject):
         for x in self._PowerSystemResources:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._PowerSystemResources = value
+            y.Location = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreBaseVoltage.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreBaseVoltage.py
index ffdca42..a392a1b 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreBaseVoltage.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreBaseVoltage.py
@@ -48,8 +48,7 @@ class CoreBaseVoltage(CoreIdentifiedObject):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
index e02e422..fda9ba7 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
@@ -82,8 +82,7 @@ class CoreConductingEquipment(CoreEquipment):
         for x in self._ClearanceTags:
             x.ConductingEquipment = None
         for y in value:
-            y._ConductingEquipment = self
-        self._ClearanceTags = value
+            y.ConductingEquipment = self
 
     ClearanceTags = property(getClearanceTags, setClearanceTags)
 
@@ -103,8 +102,7 @@ class CoreConductingEquipment(CoreEquipment):
         for x in self._Terminals:
             x.ConductingEquipment = None
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
index 4071b1d..d79bbb8 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
@@ -67,8 +67,7 @@ class CoreEquipment(CorePowerSystemResource):
         for x in self._ContingencyEquipment:
             x.Equipment = None
         for y in value:
-            y._Equipment = self
-        self._ContingencyEquipment = value
+            y.Equipment = self
 
     ContingencyEquipment = property(getContingencyEquipment, setContingencyEquipment)
 
@@ -131,8 +130,7 @@ class CoreEquipment(CorePowerSystemResource):
         for x in self._OperationalLimitSet:
             x.Equipment = None
         for y in value:
-            y._Equipment = self
-        self._OperationalLimitSet = value
+            y.Equipment = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipmentContainer.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipmentContainer.py
index 99d0032..85429f8 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipmentContainer.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipmentContainer.py
@@ -48,8 +48,7 @@ class CoreEquipmentContainer(CorePowerSystemResource):
         for x in self._Equipments:
             x.EquipmentContainer = None
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePSRType.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePSRType.py
index 178df7c..ceb2b8f 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePSRType.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePSRType.py
@@ -48,8 +48,7 @@ class CorePSRType(CoreIdentifiedObject):
         for x in self._PowerSystemResources:
             x.PSRType = None
         for y in value:
-            y._PSRType = self
-        self._PowerSystemResources = value
+            y.PSRType = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
index d8e2a64..0253d20 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
@@ -79,8 +79,7 @@ class CorePowerSystemResource(CoreIdentifiedObject):
         for x in self._Block:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._Block = value
+            y.PowerSystemResource = self
 
     Block = property(getBlock, setBlock)
 
@@ -170,8 +169,7 @@ class CorePowerSystemResource(CoreIdentifiedObject):
         for x in self._OperatingShare:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._OperatingShare = value
+            y.PowerSystemResource = self
 
     OperatingShare = property(getOperatingShare, setOperatingShare)
 
@@ -206,8 +204,7 @@ class CorePowerSystemResource(CoreIdentifiedObject):
         for x in self._Measurements:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._Measurements = value
+            y.PowerSystemResource = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlock.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlock.py
index 582c861..769a326 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlock.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlock.py
@@ -72,8 +72,7 @@ class DynamicsBlock(CorePowerSystemResource):
         for x in self._BlockParameter:
             x.MemberOf_Block = None
         for y in value:
-            y._MemberOf_Block = self
-        self._BlockParameter = value
+            y.MemberOf_Block = self
 
     BlockParameter = property(getBlockParameter, setBlockParameter)
 
@@ -110,8 +109,7 @@ class DynamicsBlock(CorePowerSystemResource):
         for x in self._BlockConnection:
             x.Block = None
         for y in value:
-            y._Block = self
-        self._BlockConnection = value
+            y.Block = self
 
     BlockConnection = property(getBlockConnection, setBlockConnection)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlockConnectivity.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlockConnectivity.py
index 5dffa2d..e41c1d1 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlockConnectivity.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsBlockConnectivity.py
@@ -56,8 +56,7 @@ class DynamicsBlockConnectivity(CoreIdentifiedObject):
         for x in self._Block:
             x.MemberOf_BlockConnectivity = None
         for y in value:
-            y._MemberOf_BlockConnectivity = self
-        self._Block = value
+            y.MemberOf_BlockConnectivity = self
 
     Block = property(getBlock, setBlock)
 
@@ -78,8 +77,7 @@ class DynamicsBlockConnectivity(CoreIdentifiedObject):
         for x in self._BlockConnection:
             x.MemberOf_BlockConnectivity = None
         for y in value:
-            y._MemberOf_BlockConnectivity = self
-        self._BlockConnection = value
+            y.MemberOf_BlockConnectivity = self
 
     BlockConnection = property(getBlockConnection, setBlockConnection)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlock.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlock.py
index 83e3b26..1e1a233 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlock.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlock.py
@@ -80,8 +80,7 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
         for x in self._Block:
             x.MetaBlock = None
         for y in value:
-            y._MetaBlock = self
-        self._Block = value
+            y.MetaBlock = self
 
     Block = property(getBlock, setBlock)
 
@@ -102,8 +101,7 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
         for x in self._MetaBlockSignal:
             x.MemberOf_MetaBlock = None
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockSignal = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockSignal = property(getMetaBlockSignal, setMetaBlockSignal)
 
@@ -124,8 +122,7 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
         for x in self._MetaBlockReference:
             x.MemberOf_MetaBlock = None
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockReference = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockReference = property(getMetaBlockReference, setMetaBlockReference)
 
@@ -146,8 +143,7 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
         for x in self._MetaBlockParameter:
             x.MemberOf_MetaBlock = None
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockParameter = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockParameter = property(getMetaBlockParameter, setMetaBlockParameter)
 
@@ -168,8 +164,7 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
         for x in self._MetaBlockOutput:
             x.MemberOf_MetaBlock = None
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockOutput = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockOutput = property(getMetaBlockOutput, setMetaBlockOutput)
 
@@ -190,8 +185,7 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
         for x in self._MetaBlockInput:
             x.MemberOf_MetaBlock = None
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockInput = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockInput = property(getMetaBlockInput, setMetaBlockInput)
 
@@ -212,8 +206,7 @@ class DynamicsMetaBlock(CoreIdentifiedObject):
         for x in self._MetaBlockState:
             x.MemberOf_MetaBlock = None
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockState = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockState = property(getMetaBlockState, setMetaBlockState)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConOutput.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConOutput.py
index 87dddfb..8e252bd 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConOutput.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConOutput.py
@@ -68,8 +68,7 @@ class DynamicsMetaBlockConOutput(CoreIdentifiedObject):
         for x in self._MetaBlockConSignal:
             x.MetaBlockConOutput = None
         for y in value:
-            y._MetaBlockConOutput = self
-        self._MetaBlockConSignal = value
+            y.MetaBlockConOutput = self
 
     MetaBlockConSignal = property(getMetaBlockConSignal, setMetaBlockConSignal)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectable.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectable.py
index 3dd4d05..b557c4e 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectable.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectable.py
@@ -76,8 +76,7 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
         for x in self._MetaBlockParameterReference:
             x.MetaBlockConnectable = None
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockParameterReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockParameterReference = property(getMetaBlockParameterReference, setMetaBlockParameterReference)
 
@@ -98,8 +97,7 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
         for x in self._StandardControlBlock_MetaBlockInputReference:
             x.StandardControlBlock_MetaBlockConnectable = None
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockInputReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockInputReference = property(getStandardControlBlock_MetaBlockInputReference, setStandardControlBlock_MetaBlockInputReference)
 
@@ -120,8 +118,7 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
         for x in self._MetaBlockStateReference:
             x.MetaBlockConnectable = None
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockStateReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockStateReference = property(getMetaBlockStateReference, setMetaBlockStateReference)
 
@@ -142,8 +139,7 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
         for x in self._StandardControlBlock_MetaBlockStateReference:
             x.StandardControlBlock_MetaBlockConnectable = None
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockStateReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockStateReference = property(getStandardControlBlock_MetaBlockStateReference, setStandardControlBlock_MetaBlockStateReference)
 
@@ -164,8 +160,7 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
         for x in self._MetaBlockInputReference:
             x.MetaBlockConnectable = None
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockInputReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockInputReference = property(getMetaBlockInputReference, setMetaBlockInputReference)
 
@@ -186,8 +181,7 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
         for x in self._StandardControlBlock_MetaBlockParameterReference:
             x.StandardControlBlock_MetaBlockConnectable = None
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockParameterReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockParameterReference = property(getStandardControlBlock_MetaBlockParameterReference, setStandardControlBlock_MetaBlockParameterReference)
 
@@ -208,8 +202,7 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
         for x in self._StandardControlBlock_MetaBlockOutputReference:
             x.StandardControlBlock_MetaBlockConnectable = None
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockOutputReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockOutputReference = property(getStandardControlBlock_MetaBlockOutputReference, setStandardControlBlock_MetaBlockOutputReference)
 
@@ -230,8 +223,7 @@ class DynamicsMetaBlockConnectable(CoreIdentifiedObject):
         for x in self._MetaBlockOutputReference:
             x.MetaBlockConnectable = None
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockOutputReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockOutputReference = property(getMetaBlockOutputReference, setMetaBlockOutputReference)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnection.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnection.py
index 04522b9..0cdd82b 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnection.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnection.py
@@ -60,8 +60,7 @@ class DynamicsMetaBlockConnection(CoreIdentifiedObject):
         for x in self._MetaBlockConOutput:
             x.MemberOf_MetaBlockConnection = None
         for y in value:
-            y._MemberOf_MetaBlockConnection = self
-        self._MetaBlockConOutput = value
+            y.MemberOf_MetaBlockConnection = self
 
     MetaBlockConOutput = property(getMetaBlockConOutput, setMetaBlockConOutput)
 
@@ -98,8 +97,7 @@ class DynamicsMetaBlockConnection(CoreIdentifiedObject):
         for x in self._BlockConnection:
             x.MetaBlockConnection = None
         for y in value:
-            y._MetaBlockConnection = self
-        self._BlockConnection = value
+            y.MetaBlockConnection = self
 
     BlockConnection = property(getBlockConnection, setBlockConnection)
 
@@ -120,8 +118,7 @@ class DynamicsMetaBlockConnection(CoreIdentifiedObject):
         for x in self._MetaBlockConInput:
             x.MemberOf_MetaBlockConnection = None
         for y in value:
-            y._MemberOf_MetaBlockConnection = self
-        self._MetaBlockConInput = value
+            y.MemberOf_MetaBlockConnection = self
 
     MetaBlockConInput = property(getMetaBlockConInput, setMetaBlockConInput)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectivity.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectivity.py
index 331f583..22d465a 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectivity.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockConnectivity.py
@@ -52,8 +52,7 @@ class DynamicsMetaBlockConnectivity(CoreIdentifiedObject):
         for x in self._BlockConnectivity:
             x.MetaBlockConnectivity = None
         for y in value:
-            y._MetaBlockConnectivity = self
-        self._BlockConnectivity = value
+            y.MetaBlockConnectivity = self
 
     BlockConnectivity = property(getBlockConnectivity, setBlockConnectivity)
 
@@ -74,8 +73,7 @@ class DynamicsMetaBlockConnectivity(CoreIdentifiedObject):
         for x in self._MetaBlockConnection:
             x.MemberOf_MetaBlockConnectivity = None
         for y in value:
-            y._MemberOf_MetaBlockConnectivity = self
-        self._MetaBlockConnection = value
+            y.MemberOf_MetaBlockConnectivity = self
 
     MetaBlockConnection = property(getMetaBlockConnection, setMetaBlockConnection)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockOutputReference.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockOutputReference.py
index fe03109..638534d 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockOutputReference.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockOutputReference.py
@@ -60,8 +60,7 @@ class DynamicsMetaBlockOutputReference(CoreIdentifiedObject):
         for x in self._MetaBlockSignal:
             x.To = None
         for y in value:
-            y._To = self
-        self._MetaBlockSignal = value
+            y.To = self
 
     MetaBlockSignal = property(getMetaBlockSignal, setMetaBlockSignal)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockParameter.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockParameter.py
index e2b7ae5..4a94f23 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockParameter.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockParameter.py
@@ -68,8 +68,7 @@ class DynamicsMetaBlockParameter(DynamicsMetaBlockConnectable):
         for x in self._BlockParameter:
             x.MetaBlockParameter = None
         for y in value:
-            y._MetaBlockParameter = self
-        self._BlockParameter = value
+            y.MetaBlockParameter = self
 
     BlockParameter = property(getBlockParameter, setBlockParameter)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py
index 9eddfc7..f0f7b59 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/DynamicsMetaBlockReference.py
@@ -75,8 +75,7 @@ class DynamicsMetaBlockReference(CoreIdentifiedObject):
         for x in self._MetaBlockStateReference:
             x.MemberOf_MetaBlockReference = None
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockStateReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockStateReference = property(getMetaBlockStateReference, setMetaBlockStateReference)
 
@@ -113,8 +112,7 @@ class DynamicsMetaBlockReference(CoreIdentifiedObject):
         for x in self._MetaBlockInputReference:
             x.MemberOf_MetaBlockReference = None
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockInputReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockInputReference = property(getMetaBlockInputReference, setMetaBlockInputReference)
 
@@ -135,8 +133,7 @@ class DynamicsMetaBlockReference(CoreIdentifiedObject):
         for x in self._BlockParameter:
             x.MemberOf_MetaBlockReference = None
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._BlockParameter = value
+            y.MemberOf_MetaBlockReference = self
 
     BlockParameter = property(getBlockParameter, setBlockParameter)
 
@@ -165,8 +162,7 @@ class DynamicsMetaBlockReference(CoreIdentifiedObject):
         for x in self._MetaBlockOutputReference:
             x.MemberOf_MetaBlockReference = None
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockOutputReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockOutputReference = property(getMetaBlockOutputReference, setMetaBlockOutputReference)
 
@@ -187,8 +183,7 @@ class DynamicsMetaBlockReference(CoreIdentifiedObject):
         for x in self._MetaBlockParameterReference:
             x.MemberOf_MetaBlockReference = None
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockParameterReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockParameterReference = property(getMetaBlockParameterReference, setMetaBlockParameterReference)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Informative/InfCore/InfCoreModelingAuthoritySet.py b/CIM14/ENTSOE/Dynamics/IEC61970/Informative/InfCore/InfCoreModelingAuthoritySet.py
index ec7f9c9..40a3512 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Informative/InfCore/InfCoreModelingAuthoritySet.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Informative/InfCore/InfCoreModelingAuthoritySet.py
@@ -48,8 +48,7 @@ class InfCoreModelingAuthoritySet(CoreIdentifiedObject):
         for x in self._IdentifiedObjects:
             x.ModelingAuthoritySet = None
         for y in value:
-            y._ModelingAuthoritySet = self
-        self._IdentifiedObjects = value
+            y.ModelingAuthoritySet = self
 
     IdentifiedObjects = property(getIdentifiedObjects, setIdentifiedObjects)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingCondEq.py b/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingCondEq.py
index 1e80fc4..50f3821 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingCondEq.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingCondEq.py
@@ -51,8 +51,7 @@ class WiresRegulatingCondEq(CoreConductingEquipment):
         for x in self._Controls:
             x.RegulatingCondEq = None
         for y in value:
-            y._RegulatingCondEq = self
-        self._Controls = value
+            y.RegulatingCondEq = self
 
     Controls = property(getControls, setControls)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingControl.py b/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingControl.py
index 1e5ed93..31cbdae 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingControl.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Wires/WiresRegulatingControl.py
@@ -48,8 +48,7 @@ class WiresRegulatingControl(CorePowerSystemResource):
         for x in self._RegulatingCondEq:
             x.RegulatingControl = None
         for y in value:
-            y._RegulatingControl = self
-        self._RegulatingCondEq = value
+            y.RegulatingControl = self
 
     RegulatingCondEq = property(getRegulatingCondEq, setRegulatingCondEq)
 
diff --git a/CIM14/ENTSOE/Equipment/ControlArea/ControlArea.py b/CIM14/ENTSOE/Equipment/ControlArea/ControlArea.py
index e737b7c..bacef17 100644
--- a/CIM14/ENTSOE/Equipment/ControlArea/ControlArea.py
+++ b/CIM14/ENTSOE/Equipment/ControlArea/ControlArea.py
@@ -86,8 +86,7 @@ class ControlArea(PowerSystemResource):
         for x in self._ControlAreaGeneratingUnit:
             x.ControlArea = None
         for y in value:
-            y._ControlArea = self
-        self._ControlAreaGeneratingUnit = value
+            y.ControlArea = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
@@ -108,8 +107,7 @@ class ControlArea(PowerSystemResource):
         for x in self._TieFlow:
             x.ControlArea = None
         for y in value:
-            y._ControlArea = self
-        self._TieFlow = value
+            y.ControlArea = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/BaseVoltage.py b/CIM14/ENTSOE/Equipment/Core/BaseVoltage.py
index 1a7665b..16b602c 100644
--- a/CIM14/ENTSOE/Equipment/Core/BaseVoltage.py
+++ b/CIM14/ENTSOE/Equipment/Core/BaseVoltage.py
@@ -58,8 +58,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -80,8 +79,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/ConductingEquipment.py b/CIM14/ENTSOE/Equipment/Core/ConductingEquipment.py
index 5b9068a..9fb8433 100644
--- a/CIM14/ENTSOE/Equipment/Core/ConductingEquipment.py
+++ b/CIM14/ENTSOE/Equipment/Core/ConductingEquipment.py
@@ -54,8 +54,7 @@ class ConductingEquipment(Equipment):
         for x in self._Terminals:
             x.ConductingEquipment = None
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/ConnectivityNode.py b/CIM14/ENTSOE/Equipment/Core/ConnectivityNode.py
index 297a15f..559f6bc 100644
--- a/CIM14/ENTSOE/Equipment/Core/ConnectivityNode.py
+++ b/CIM14/ENTSOE/Equipment/Core/ConnectivityNode.py
@@ -50,8 +50,7 @@ class ConnectivityNode(IdentifiedObject):
         for x in self._Terminals:
             x.ConnectivityNode = None
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/Curve.py b/CIM14/ENTSOE/Equipment/Core/Curve.py
index a3d15d4..4c2e151 100644
--- a/CIM14/ENTSOE/Equipment/Core/Curve.py
+++ b/CIM14/ENTSOE/Equipment/Core/Curve.py
@@ -62,8 +62,7 @@ class Curve(IdentifiedObject):
         for x in self._CurveDatas:
             x.Curve = None
         for y in value:
-            y._Curve = self
-        self._CurveDatas = value
+            y.Curve = self
 
     CurveDatas = property(getCurveDatas, setCurveDatas)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/Equipment.py b/CIM14/ENTSOE/Equipment/Core/Equipment.py
index 589c3cf..23c97e0 100644
--- a/CIM14/ENTSOE/Equipment/Core/Equipment.py
+++ b/CIM14/ENTSOE/Equipment/Core/Equipment.py
@@ -58,8 +58,7 @@ class Equipment(PowerSystemResource):
         for x in self._OperationalLimitSet:
             x.Equipment = None
         for y in value:
-            y._Equipment = self
-        self._OperationalLimitSet = value
+            y.Equipment = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/EquipmentContainer.py b/CIM14/ENTSOE/Equipment/Core/EquipmentContainer.py
index a07fab4..a63ff80 100644
--- a/CIM14/ENTSOE/Equipment/Core/EquipmentContainer.py
+++ b/CIM14/ENTSOE/Equipment/Core/EquipmentContainer.py
@@ -50,8 +50,7 @@ class EquipmentContainer(ConnectivityNodeContainer):
         for x in self._Equipments:
             x.EquipmentContainer = None
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/GeographicalRegion.py b/CIM14/ENTSOE/Equipment/Core/GeographicalRegion.py
index 58ed6b9..9b1e7b9 100644
--- a/CIM14/ENTSOE/Equipment/Core/GeographicalRegion.py
+++ b/CIM14/ENTSOE/Equipment/Core/GeographicalRegion.py
@@ -50,8 +50,7 @@ class GeographicalRegion(IdentifiedObject):
         for x in self._Regions:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/PowerSystemResource.py b/CIM14/ENTSOE/Equipment/Core/PowerSystemResource.py
index 7d0ec6a..a0dcc7a 100644
--- a/CIM14/ENTSOE/Equipment/Core/PowerSystemResource.py
+++ b/CIM14/ENTSOE/Equipment/Core/PowerSystemResource.py
@@ -50,8 +50,7 @@ class PowerSystemResource(IdentifiedObject):
         for x in self._Measurements:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._Measurements = value
+            y.PowerSystemResource = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/SubGeographicalRegion.py b/CIM14/ENTSOE/Equipment/Core/SubGeographicalRegion.py
index 6117976..8cdff13 100644
--- a/CIM14/ENTSOE/Equipment/Core/SubGeographicalRegion.py
+++ b/CIM14/ENTSOE/Equipment/Core/SubGeographicalRegion.py
@@ -75,8 +75,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Lines:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
@@ -97,8 +96,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Substations:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/Substation.py b/CIM14/ENTSOE/Equipment/Core/Substation.py
index ce5f7ef..77758b6 100644
--- a/CIM14/ENTSOE/Equipment/Core/Substation.py
+++ b/CIM14/ENTSOE/Equipment/Core/Substation.py
@@ -71,8 +71,7 @@ class Substation(EquipmentContainer):
         for x in self._VoltageLevels:
             x.Substation = None
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/Terminal.py b/CIM14/ENTSOE/Equipment/Core/Terminal.py
index ea7a2ad..f57bc74 100644
--- a/CIM14/ENTSOE/Equipment/Core/Terminal.py
+++ b/CIM14/ENTSOE/Equipment/Core/Terminal.py
@@ -82,8 +82,7 @@ class Terminal(IdentifiedObject):
         for x in self._OperationalLimitSet:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._OperationalLimitSet = value
+            y.Terminal = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
@@ -121,8 +120,7 @@ class Terminal(IdentifiedObject):
         for x in self._HasFirst_MutualCoupling:
             x.First_Terminal = None
         for y in value:
-            y._First_Terminal = self
-        self._HasFirst_MutualCoupling = value
+            y.First_Terminal = self
 
     HasFirst_MutualCoupling = property(getHasFirst_MutualCoupling, setHasFirst_MutualCoupling)
 
@@ -143,8 +141,7 @@ class Terminal(IdentifiedObject):
         for x in self._Measurements:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._Measurements = value
+            y.Terminal = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -182,8 +179,7 @@ class Terminal(IdentifiedObject):
         for x in self._RegulatingControl:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._RegulatingControl = value
+            y.Terminal = self
 
     RegulatingControl = property(getRegulatingControl, setRegulatingControl)
 
@@ -204,8 +200,7 @@ class Terminal(IdentifiedObject):
         for x in self._TieFlow:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._TieFlow = value
+            y.Terminal = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
@@ -226,8 +221,7 @@ class Terminal(IdentifiedObject):
         for x in self._HasSecond_MutualCoupling:
             x.Second_Terminal = None
         for y in value:
-            y._Second_Terminal = self
-        self._HasSecond_MutualCoupling = value
+            y.Second_Terminal = self
 
     HasSecond_MutualCoupling = property(getHasSecond_MutualCoupling, setHasSecond_MutualCoupling)
 
diff --git a/CIM14/ENTSOE/Equipment/Core/Unit.py b/CIM14/ENTSOE/Equipment/Core/Unit.py
index a99fea5..cb58613 100644
--- a/CIM14/ENTSOE/Equipment/Core/Unit.py
+++ b/CIM14/ENTSOE/Equipment/Core/Unit.py
@@ -50,8 +50,7 @@ class Unit(IdentifiedObject):
         for x in self._Measurements:
             x.Unit = None
         for y in value:
-            y._Unit = self
-        self._Measurements = value
+            y.Unit = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/ENTSOE/Equipment/Equivalents/EquivalentNetwork.py b/CIM14/ENTSOE/Equipment/Equivalents/EquivalentNetwork.py
index 11a1240..8c7a44c 100644
--- a/CIM14/ENTSOE/Equipment/Equivalents/EquivalentNetwork.py
+++ b/CIM14/ENTSOE/Equipment/Equivalents/EquivalentNetwork.py
@@ -50,8 +50,7 @@ class EquivalentNetwork(ConnectivityNodeContainer):
         for x in self._EquivalentEquipments:
             x.EquivalentNetwork = None
         for y in value:
-            y._EquivalentNetwork = self
-        self._EquivalentEquipments = value
+            y.EquivalentNetwork = self
 
     EquivalentEquipments = property(getEquivalentEquipments, setEquivalentEquipments)
 
diff --git a/CIM14/ENTSOE/Equipment/Generation/Production/GeneratingUnit.py b/CIM14/ENTSOE/Equipment/Generation/Production/GeneratingUnit.py
index 730b711..31bc77d 100644
--- a/CIM14/ENTSOE/Equipment/Generation/Production/GeneratingUnit.py
+++ b/CIM14/ENTSOE/Equipment/Generation/Production/GeneratingUnit.py
@@ -114,8 +114,7 @@ class GeneratingUnit(Equipment):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
@@ -136,8 +135,7 @@ class GeneratingUnit(Equipment):
         for x in self._ControlAreaGeneratingUnit:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._ControlAreaGeneratingUnit = value
+            y.GeneratingUnit = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
diff --git a/CIM14/ENTSOE/Equipment/LoadModel/ConformLoadGroup.py b/CIM14/ENTSOE/Equipment/LoadModel/ConformLoadGroup.py
index 5163d41..89b01f7 100644
--- a/CIM14/ENTSOE/Equipment/LoadModel/ConformLoadGroup.py
+++ b/CIM14/ENTSOE/Equipment/LoadModel/ConformLoadGroup.py
@@ -50,8 +50,7 @@ class ConformLoadGroup(LoadGroup):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM14/ENTSOE/Equipment/LoadModel/DayType.py b/CIM14/ENTSOE/Equipment/LoadModel/DayType.py
index 83b160c..a73982c 100644
--- a/CIM14/ENTSOE/Equipment/LoadModel/DayType.py
+++ b/CIM14/ENTSOE/Equipment/LoadModel/DayType.py
@@ -50,8 +50,7 @@ class DayType(IdentifiedObject):
         for x in self._SeasonDayTypeSchedules:
             x.DayType = None
         for y in value:
-            y._DayType = self
-        self._SeasonDayTypeSchedules = value
+            y.DayType = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM14/ENTSOE/Equipment/LoadModel/LoadResponseCharacteristic.py b/CIM14/ENTSOE/Equipment/LoadModel/LoadResponseCharacteristic.py
index f2dc851..acaf73e 100644
--- a/CIM14/ENTSOE/Equipment/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM14/ENTSOE/Equipment/LoadModel/LoadResponseCharacteristic.py
@@ -94,8 +94,7 @@ class LoadResponseCharacteristic(IdentifiedObject):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM14/ENTSOE/Equipment/LoadModel/NonConformLoadGroup.py b/CIM14/ENTSOE/Equipment/LoadModel/NonConformLoadGroup.py
index 4393ea9..1f4d054 100644
--- a/CIM14/ENTSOE/Equipment/LoadModel/NonConformLoadGroup.py
+++ b/CIM14/ENTSOE/Equipment/LoadModel/NonConformLoadGroup.py
@@ -50,8 +50,7 @@ class NonConformLoadGroup(LoadGroup):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM14/ENTSOE/Equipment/LoadModel/Season.py b/CIM14/ENTSOE/Equipment/LoadModel/Season.py
index 0bfcf32..9d9e351 100644
--- a/CIM14/ENTSOE/Equipment/LoadModel/Season.py
+++ b/CIM14/ENTSOE/Equipment/LoadModel/Season.py
@@ -50,8 +50,7 @@ class Season(Element):
         for x in self._SeasonDayTypeSchedules:
             x.Season = None
         for y in value:
-            y._Season = self
-        self._SeasonDayTypeSchedules = value
+            y.Season = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM14/ENTSOE/Equipment/LoadModel/SubLoadArea.py b/CIM14/ENTSOE/Equipment/LoadModel/SubLoadArea.py
index 33544c5..a0b0017 100644
--- a/CIM14/ENTSOE/Equipment/LoadModel/SubLoadArea.py
+++ b/CIM14/ENTSOE/Equipment/LoadModel/SubLoadArea.py
@@ -50,8 +50,7 @@ class SubLoadArea(EnergyArea):
         for x in self._LoadGroups:
             x.SubLoadArea = None
         for y in value:
-            y._SubLoadArea = self
-        self._LoadGroups = value
+            y.SubLoadArea = self
 
     LoadGroups = property(getLoadGroups, setLoadGroups)
 
diff --git a/CIM14/ENTSOE/Equipment/Meas/MeasurementValueSource.py b/CIM14/ENTSOE/Equipment/Meas/MeasurementValueSource.py
index 257b7e4..4f34453 100644
--- a/CIM14/ENTSOE/Equipment/Meas/MeasurementValueSource.py
+++ b/CIM14/ENTSOE/Equipment/Meas/MeasurementValueSource.py
@@ -50,8 +50,7 @@ class MeasurementValueSource(IdentifiedObject):
         for x in self._MeasurementValues:
             x.MeasurementValueSource = None
         for y in value:
-            y._MeasurementValueSource = self
-        self._MeasurementValues = value
+            y.MeasurementValueSource = self
 
     MeasurementValues = property(getMeasurementValues, setMeasurementValues)
 
diff --git a/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitSet.py b/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitSet.py
index 064e9b2..069df77 100644
--- a/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitSet.py
+++ b/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitSet.py
@@ -92,8 +92,7 @@ class OperationalLimitSet(IdentifiedObject):
         for x in self._OperationalLimitValue:
             x.OperationalLimitSet = None
         for y in value:
-            y._OperationalLimitSet = self
-        self._OperationalLimitValue = value
+            y.OperationalLimitSet = self
 
     OperationalLimitValue = property(getOperationalLimitValue, setOperationalLimitValue)
 
diff --git a/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitType.py b/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitType.py
index f68f128..c4bbaf6 100644
--- a/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitType.py
+++ b/CIM14/ENTSOE/Equipment/OperationalLimits/OperationalLimitType.py
@@ -58,8 +58,7 @@ class OperationalLimitType(IdentifiedObject):
         for x in self._OperationalLimit:
             x.OperationalLimitType = None
         for y in value:
-            y._OperationalLimitType = self
-        self._OperationalLimit = value
+            y.OperationalLimitType = self
 
     OperationalLimit = property(getOperationalLimit, setOperationalLimit)
 
diff --git a/CIM14/ENTSOE/Equipment/Wires/PowerTransformer.py b/CIM14/ENTSOE/Equipment/Wires/PowerTransformer.py
index a485028..a9d2a14 100644
--- a/CIM14/ENTSOE/Equipment/Wires/PowerTransformer.py
+++ b/CIM14/ENTSOE/Equipment/Wires/PowerTransformer.py
@@ -50,8 +50,7 @@ class PowerTransformer(Equipment):
         for x in self._TransformerWindings:
             x.PowerTransformer = None
         for y in value:
-            y._PowerTransformer = self
-        self._TransformerWindings = value
+            y.PowerTransformer = self
 
     TransformerWindings = property(getTransformerWindings, setTransformerWindings)
 
diff --git a/CIM14/ENTSOE/Equipment/Wires/ReactiveCapabilityCurve.py b/CIM14/ENTSOE/Equipment/Wires/ReactiveCapabilityCurve.py
index 0ed7a80..566d51d 100644
--- a/CIM14/ENTSOE/Equipment/Wires/ReactiveCapabilityCurve.py
+++ b/CIM14/ENTSOE/Equipment/Wires/ReactiveCapabilityCurve.py
@@ -54,8 +54,7 @@ class ReactiveCapabilityCurve(Curve):
         for x in self._InitiallyUsedBySynchronousMachines:
             x.InitialReactiveCapabilityCurve = None
         for y in value:
-            y._InitialReactiveCapabilityCurve = self
-        self._InitiallyUsedBySynchronousMachines = value
+            y.InitialReactiveCapabilityCurve = self
 
     InitiallyUsedBySynchronousMachines = property(getInitiallyUsedBySynchronousMachines, setInitiallyUsedBySynchronousMachines)
 
diff --git a/CIM14/ENTSOE/Equipment/Wires/RegulatingControl.py b/CIM14/ENTSOE/Equipment/Wires/RegulatingControl.py
index 4f6b884..7c5fe1a 100644
--- a/CIM14/ENTSOE/Equipment/Wires/RegulatingControl.py
+++ b/CIM14/ENTSOE/Equipment/Wires/RegulatingControl.py
@@ -91,8 +91,7 @@ class RegulatingControl(PowerSystemResource):
         for x in self._RegulatingCondEq:
             x.RegulatingControl = None
         for y in value:
-            y._RegulatingControl = self
-        self._RegulatingCondEq = value
+            y.RegulatingControl = self
 
     RegulatingCondEq = property(getRegulatingCondEq, setRegulatingCondEq)
 
@@ -113,8 +112,7 @@ class RegulatingControl(PowerSystemResource):
         for x in self._TapChanger:
             x.RegulatingControl = None
         for y in value:
-            y._RegulatingControl = self
-        self._TapChanger = value
+            y.RegulatingControl = self
 
     TapChanger = property(getTapChanger, setTapChanger)
 
diff --git a/CIM14/ENTSOE/Topology/Core/BaseVoltage.py b/CIM14/ENTSOE/Topology/Core/BaseVoltage.py
index 46cba6c..49beaf2 100644
--- a/CIM14/ENTSOE/Topology/Core/BaseVoltage.py
+++ b/CIM14/ENTSOE/Topology/Core/BaseVoltage.py
@@ -50,8 +50,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._TopologicalNode:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._TopologicalNode = value
+            y.BaseVoltage = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
diff --git a/CIM14/ENTSOE/Topology/Core/ConnectivityNodeContainer.py b/CIM14/ENTSOE/Topology/Core/ConnectivityNodeContainer.py
index 2b809a0..a924459 100644
--- a/CIM14/ENTSOE/Topology/Core/ConnectivityNodeContainer.py
+++ b/CIM14/ENTSOE/Topology/Core/ConnectivityNodeContainer.py
@@ -50,8 +50,7 @@ class ConnectivityNodeContainer(IdentifiedObject):
         for x in self._TopologicalNode:
             x.ConnectivityNodeContainer = None
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._TopologicalNode = value
+            y.ConnectivityNodeContainer = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
diff --git a/CIM14/ENTSOE/Topology/Topology/TopologicalNode.py b/CIM14/ENTSOE/Topology/Topology/TopologicalNode.py
index 0a93db3..fabc77e 100644
--- a/CIM14/ENTSOE/Topology/Topology/TopologicalNode.py
+++ b/CIM14/ENTSOE/Topology/Topology/TopologicalNode.py
@@ -92,8 +92,7 @@ class TopologicalNode(IdentifiedObject):
         for x in self._Terminal:
             x.TopologicalNode = None
         for y in value:
-            y._TopologicalNode = self
-        self._Terminal = value
+            y.TopologicalNode = self
 
     Terminal = property(getTerminal, setTerminal)
 
diff --git a/CIM14/IEC61968/AssetModels/ConductorInfo.py b/CIM14/IEC61968/AssetModels/ConductorInfo.py
index 635e9ab..caa22d1 100644
--- a/CIM14/IEC61968/AssetModels/ConductorInfo.py
+++ b/CIM14/IEC61968/AssetModels/ConductorInfo.py
@@ -74,8 +74,7 @@ class ConductorInfo(IdentifiedObject):
         for x in self._ConductorSegments:
             x.ConductorInfo = None
         for y in value:
-            y._ConductorInfo = self
-        self._ConductorSegments = value
+            y.ConductorInfo = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
@@ -96,8 +95,7 @@ class ConductorInfo(IdentifiedObject):
         for x in self._WireArrangements:
             x.ConductorInfo = None
         for y in value:
-            y._ConductorInfo = self
-        self._WireArrangements = value
+            y.ConductorInfo = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
diff --git a/CIM14/IEC61968/AssetModels/EndDeviceModel.py b/CIM14/IEC61968/AssetModels/EndDeviceModel.py
index 3cf2bb4..6f8bff3 100644
--- a/CIM14/IEC61968/AssetModels/EndDeviceModel.py
+++ b/CIM14/IEC61968/AssetModels/EndDeviceModel.py
@@ -50,8 +50,7 @@ class EndDeviceModel(AssetModel):
         for x in self._EndDeviceAssets:
             x.EndDeviceModel = None
         for y in value:
-            y._EndDeviceModel = self
-        self._EndDeviceAssets = value
+            y.EndDeviceModel = self
 
     EndDeviceAssets = property(getEndDeviceAssets, setEndDeviceAssets)
 
diff --git a/CIM14/IEC61968/AssetModels/TransformerInfo.py b/CIM14/IEC61968/AssetModels/TransformerInfo.py
index e77cdca..ed8d3b7 100644
--- a/CIM14/IEC61968/AssetModels/TransformerInfo.py
+++ b/CIM14/IEC61968/AssetModels/TransformerInfo.py
@@ -54,8 +54,7 @@ class TransformerInfo(IdentifiedObject):
         for x in self._WindingInfos:
             x.TransformerInfo = None
         for y in value:
-            y._TransformerInfo = self
-        self._WindingInfos = value
+            y.TransformerInfo = self
 
     WindingInfos = property(getWindingInfos, setWindingInfos)
 
@@ -76,8 +75,7 @@ class TransformerInfo(IdentifiedObject):
         for x in self._Transformers:
             x.TransformerInfo = None
         for y in value:
-            y._TransformerInfo = self
-        self._Transformers = value
+            y.TransformerInfo = self
 
     Transformers = property(getTransformers, setTransformers)
 
diff --git a/CIM14/IEC61968/AssetModels/WindingInfo.py b/CIM14/IEC61968/AssetModels/WindingInfo.py
index a55dcaa..a169f8e 100644
--- a/CIM14/IEC61968/AssetModels/WindingInfo.py
+++ b/CIM14/IEC61968/AssetModels/WindingInfo.py
@@ -98,8 +98,7 @@ class WindingInfo(IdentifiedObject):
         for x in self._Windings:
             x.WindingInfo = None
         for y in value:
-            y._WindingInfo = self
-        self._Windings = value
+            y.WindingInfo = self
 
     Windings = property(getWindings, setWindings)
 
@@ -120,8 +119,7 @@ class WindingInfo(IdentifiedObject):
         for x in self._WindingTests:
             x.FromWinding = None
         for y in value:
-            y._FromWinding = self
-        self._WindingTests = value
+            y.FromWinding = self
 
     WindingTests = property(getWindingTests, setWindingTests)
 
@@ -159,8 +157,7 @@ class WindingInfo(IdentifiedObject):
         for x in self._ToWindingSpecs:
             x.ToWinding = None
         for y in value:
-            y._ToWinding = self
-        self._ToWindingSpecs = value
+            y.ToWinding = self
 
     ToWindingSpecs = property(getToWindingSpecs, setToWindingSpecs)
 
diff --git a/CIM14/IEC61968/AssetModels/WireType.py b/CIM14/IEC61968/AssetModels/WireType.py
index d307332..a2396f2 100644
--- a/CIM14/IEC61968/AssetModels/WireType.py
+++ b/CIM14/IEC61968/AssetModels/WireType.py
@@ -102,8 +102,7 @@ class WireType(IdentifiedObject):
         for x in self._WireArrangements:
             x.WireType = None
         for y in value:
-            y._WireType = self
-        self._WireArrangements = value
+            y.WireType = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -124,8 +123,7 @@ class WireType(IdentifiedObject):
         for x in self._ConcentricNeutralCableInfos:
             x.WireType = None
         for y in value:
-            y._WireType = self
-        self._ConcentricNeutralCableInfos = value
+            y.WireType = self
 
     ConcentricNeutralCableInfos = property(getConcentricNeutralCableInfos, setConcentricNeutralCableInfos)
 
diff --git a/CIM14/IEC61968/Assets/Asset.py b/CIM14/IEC61968/Assets/Asset.py
index 1bf06e8..bf43bb1 100644
--- a/CIM14/IEC61968/Assets/Asset.py
+++ b/CIM14/IEC61968/Assets/Asset.py
@@ -238,8 +238,7 @@ class Asset(IdentifiedObject):
         for x in self._AssetFunctions:
             x.Asset = None
         for y in value:
-            y._Asset = self
-        self._AssetFunctions = value
+            y.Asset = self
 
     AssetFunctions = property(getAssetFunctions, setAssetFunctions)
 
@@ -259,8 +258,7 @@ class Asset(IdentifiedObject):
         for x in self._Measurements:
             x.Asset = None
         for y in value:
-            y._Asset = self
-        self._Measurements = value
+            y.Asset = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/IEC61968/Assets/AssetContainer.py b/CIM14/IEC61968/Assets/AssetContainer.py
index 309cc06..8a262b6 100644
--- a/CIM14/IEC61968/Assets/AssetContainer.py
+++ b/CIM14/IEC61968/Assets/AssetContainer.py
@@ -54,8 +54,7 @@ class AssetContainer(Asset):
         for x in self._Seals:
             x.AssetContainer = None
         for y in value:
-            y._AssetContainer = self
-        self._Seals = value
+            y.AssetContainer = self
 
     Seals = property(getSeals, setSeals)
 
@@ -75,8 +74,7 @@ class AssetContainer(Asset):
         for x in self._Assets:
             x.AssetContainer = None
         for y in value:
-            y._AssetContainer = self
-        self._Assets = value
+            y.AssetContainer = self
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM14/IEC61968/Common/CoordinateSystem.py b/CIM14/IEC61968/Common/CoordinateSystem.py
index dbe7024..2a06991 100644
--- a/CIM14/IEC61968/Common/CoordinateSystem.py
+++ b/CIM14/IEC61968/Common/CoordinateSystem.py
@@ -75,8 +75,7 @@ class CoordinateSystem(Element):
         for x in self._PositionPoints:
             x.CoordinateSystem = None
         for y in value:
-            y._CoordinateSystem = self
-        self._PositionPoints = value
+            y.CoordinateSystem = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
diff --git a/CIM14/IEC61968/Common/Location.py b/CIM14/IEC61968/Common/Location.py
index 98e5b3d..1813e89 100644
--- a/CIM14/IEC61968/Common/Location.py
+++ b/CIM14/IEC61968/Common/Location.py
@@ -100,8 +100,7 @@ class Location(IdentifiedObject):
         for x in self._PositionPoints:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._PositionPoints = value
+            y.Location = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
@@ -122,8 +121,7 @@ class Location(IdentifiedObject):
         for x in self._PowerSystemResources:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._PowerSystemResources = value
+            y.Location = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
@@ -144,8 +142,7 @@ class Location(IdentifiedObject):
         for x in self._CoordinateSystems:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._CoordinateSystems = value
+            y.Location = self
 
     CoordinateSystems = property(getCoordinateSystems, setCoordinateSystems)
 
@@ -196,8 +193,7 @@ class Location(IdentifiedObject):
         for x in self._Assets:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._Assets = value
+            y.Location = self
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM14/IEC61968/Common/TimeSchedule.py b/CIM14/IEC61968/Common/TimeSchedule.py
index 40a37a4..a9822bf 100644
--- a/CIM14/IEC61968/Common/TimeSchedule.py
+++ b/CIM14/IEC61968/Common/TimeSchedule.py
@@ -69,8 +69,7 @@ class TimeSchedule(Document):
         for x in self._TimePoints:
             x.TimeSchedule = None
         for y in value:
-            y._TimeSchedule = self
-        self._TimePoints = value
+            y.TimeSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM14/IEC61968/Customers/Customer.py b/CIM14/IEC61968/Customers/Customer.py
index 9e908a7..e9c322e 100644
--- a/CIM14/IEC61968/Customers/Customer.py
+++ b/CIM14/IEC61968/Customers/Customer.py
@@ -108,8 +108,7 @@ class Customer(Organisation):
         for x in self._CustomerAgreements:
             x.Customer = None
         for y in value:
-            y._Customer = self
-        self._CustomerAgreements = value
+            y.Customer = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -130,8 +129,7 @@ class Customer(Organisation):
         for x in self._EndDeviceAssets:
             x.Customer = None
         for y in value:
-            y._Customer = self
-        self._EndDeviceAssets = value
+            y.Customer = self
 
     EndDeviceAssets = property(getEndDeviceAssets, setEndDeviceAssets)
 
diff --git a/CIM14/IEC61968/Customers/CustomerAccount.py b/CIM14/IEC61968/Customers/CustomerAccount.py
index 49330c3..45fb0ce 100644
--- a/CIM14/IEC61968/Customers/CustomerAccount.py
+++ b/CIM14/IEC61968/Customers/CustomerAccount.py
@@ -54,8 +54,7 @@ class CustomerAccount(Document):
         for x in self._PaymentTransactions:
             x.CustomerAccount = None
         for y in value:
-            y._CustomerAccount = self
-        self._PaymentTransactions = value
+            y.CustomerAccount = self
 
     PaymentTransactions = property(getPaymentTransactions, setPaymentTransactions)
 
@@ -76,8 +75,7 @@ class CustomerAccount(Document):
         for x in self._CustomerAgreements:
             x.CustomerAccount = None
         for y in value:
-            y._CustomerAccount = self
-        self._CustomerAgreements = value
+            y.CustomerAccount = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM14/IEC61968/Customers/CustomerAgreement.py b/CIM14/IEC61968/Customers/CustomerAgreement.py
index fddfca6..4d90a32 100644
--- a/CIM14/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM14/IEC61968/Customers/CustomerAgreement.py
@@ -212,8 +212,7 @@ class CustomerAgreement(Agreement):
         for x in self._MeterReadings:
             x.CustomerAgreement = None
         for y in value:
-            y._CustomerAgreement = self
-        self._MeterReadings = value
+            y.CustomerAgreement = self
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
@@ -251,8 +250,7 @@ class CustomerAgreement(Agreement):
         for x in self._AuxiliaryAgreements:
             x.CustomerAgreement = None
         for y in value:
-            y._CustomerAgreement = self
-        self._AuxiliaryAgreements = value
+            y.CustomerAgreement = self
 
     AuxiliaryAgreements = property(getAuxiliaryAgreements, setAuxiliaryAgreements)
 
@@ -273,8 +271,7 @@ class CustomerAgreement(Agreement):
         for x in self._EndDeviceControls:
             x.CustomerAgreement = None
         for y in value:
-            y._CustomerAgreement = self
-        self._EndDeviceControls = value
+            y.CustomerAgreement = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
@@ -312,8 +309,7 @@ class CustomerAgreement(Agreement):
         for x in self._ServiceDeliveryPoints:
             x.CustomerAgreement = None
         for y in value:
-            y._CustomerAgreement = self
-        self._ServiceDeliveryPoints = value
+            y.CustomerAgreement = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61968/Customers/PricingStructure.py b/CIM14/IEC61968/Customers/PricingStructure.py
index 0bdec28..6d3c1cd 100644
--- a/CIM14/IEC61968/Customers/PricingStructure.py
+++ b/CIM14/IEC61968/Customers/PricingStructure.py
@@ -90,8 +90,7 @@ class PricingStructure(Document):
         for x in self._Transactions:
             x.PricingStructure = None
         for y in value:
-            y._PricingStructure = self
-        self._Transactions = value
+            y.PricingStructure = self
 
     Transactions = property(getTransactions, setTransactions)
 
diff --git a/CIM14/IEC61968/Customers/ServiceCategory.py b/CIM14/IEC61968/Customers/ServiceCategory.py
index bb6ace3..b33ac3a 100644
--- a/CIM14/IEC61968/Customers/ServiceCategory.py
+++ b/CIM14/IEC61968/Customers/ServiceCategory.py
@@ -61,8 +61,7 @@ class ServiceCategory(IdentifiedObject):
         for x in self._CustomerAgreements:
             x.ServiceCategory = None
         for y in value:
-            y._ServiceCategory = self
-        self._CustomerAgreements = value
+            y.ServiceCategory = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -83,8 +82,7 @@ class ServiceCategory(IdentifiedObject):
         for x in self._PricingStructures:
             x.ServiceCategory = None
         for y in value:
-            y._ServiceCategory = self
-        self._PricingStructures = value
+            y.ServiceCategory = self
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
@@ -105,8 +103,7 @@ class ServiceCategory(IdentifiedObject):
         for x in self._ServiceDeliveryPoints:
             x.ServiceCategory = None
         for y in value:
-            y._ServiceCategory = self
-        self._ServiceDeliveryPoints = value
+            y.ServiceCategory = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61968/Customers/ServiceLocation.py b/CIM14/IEC61968/Customers/ServiceLocation.py
index a43c7d4..aece2d9 100644
--- a/CIM14/IEC61968/Customers/ServiceLocation.py
+++ b/CIM14/IEC61968/Customers/ServiceLocation.py
@@ -70,8 +70,7 @@ class ServiceLocation(Location):
         for x in self._EndDeviceAssets:
             x.ServiceLocation = None
         for y in value:
-            y._ServiceLocation = self
-        self._EndDeviceAssets = value
+            y.ServiceLocation = self
 
     EndDeviceAssets = property(getEndDeviceAssets, setEndDeviceAssets)
 
@@ -120,8 +119,7 @@ class ServiceLocation(Location):
         for x in self._ServiceDeliveryPoints:
             x.ServiceLocation = None
         for y in value:
-            y._ServiceLocation = self
-        self._ServiceDeliveryPoints = value
+            y.ServiceLocation = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61968/Metering/DemandResponseProgram.py b/CIM14/IEC61968/Metering/DemandResponseProgram.py
index c971ba7..d013b08 100644
--- a/CIM14/IEC61968/Metering/DemandResponseProgram.py
+++ b/CIM14/IEC61968/Metering/DemandResponseProgram.py
@@ -65,8 +65,7 @@ class DemandResponseProgram(IdentifiedObject):
         for x in self._CustomerAgreements:
             x.DemandResponseProgram = None
         for y in value:
-            y._DemandResponseProgram = self
-        self._CustomerAgreements = value
+            y.DemandResponseProgram = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -87,8 +86,7 @@ class DemandResponseProgram(IdentifiedObject):
         for x in self._EndDeviceControls:
             x.DemandResponseProgram = None
         for y in value:
-            y._DemandResponseProgram = self
-        self._EndDeviceControls = value
+            y.DemandResponseProgram = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
@@ -112,8 +110,7 @@ class DemandResponseProgram(IdentifiedObject):
         for x in self._EndDeviceGroups:
             x.DemandResponseProgram = None
         for y in value:
-            y._DemandResponseProgram = self
-        self._EndDeviceGroups = value
+            y.DemandResponseProgram = self
 
     EndDeviceGroups = property(getEndDeviceGroups, setEndDeviceGroups)
 
diff --git a/CIM14/IEC61968/Metering/DeviceFunction.py b/CIM14/IEC61968/Metering/DeviceFunction.py
index a7b964d..2cb9719 100644
--- a/CIM14/IEC61968/Metering/DeviceFunction.py
+++ b/CIM14/IEC61968/Metering/DeviceFunction.py
@@ -79,8 +79,7 @@ class DeviceFunction(AssetFunction):
         for x in self._Registers:
             x.DeviceFunction = None
         for y in value:
-            y._DeviceFunction = self
-        self._Registers = value
+            y.DeviceFunction = self
 
     Registers = property(getRegisters, setRegisters)
 
@@ -101,8 +100,7 @@ class DeviceFunction(AssetFunction):
         for x in self._EndDeviceEvents:
             x.DeviceFunction = None
         for y in value:
-            y._DeviceFunction = self
-        self._EndDeviceEvents = value
+            y.DeviceFunction = self
 
     EndDeviceEvents = property(getEndDeviceEvents, setEndDeviceEvents)
 
diff --git a/CIM14/IEC61968/Metering/EndDeviceAsset.py b/CIM14/IEC61968/Metering/EndDeviceAsset.py
index ef01f20..51237e2 100644
--- a/CIM14/IEC61968/Metering/EndDeviceAsset.py
+++ b/CIM14/IEC61968/Metering/EndDeviceAsset.py
@@ -196,8 +196,7 @@ class EndDeviceAsset(AssetContainer):
         for x in self._DeviceFunctions:
             x.EndDeviceAsset = None
         for y in value:
-            y._EndDeviceAsset = self
-        self._DeviceFunctions = value
+            y.EndDeviceAsset = self
 
     DeviceFunctions = property(getDeviceFunctions, setDeviceFunctions)
 
@@ -234,8 +233,7 @@ class EndDeviceAsset(AssetContainer):
         for x in self._Readings:
             x.EndDeviceAsset = None
         for y in value:
-            y._EndDeviceAsset = self
-        self._Readings = value
+            y.EndDeviceAsset = self
 
     Readings = property(getReadings, setReadings)
 
@@ -256,8 +254,7 @@ class EndDeviceAsset(AssetContainer):
         for x in self._EndDeviceControls:
             x.EndDeviceAsset = None
         for y in value:
-            y._EndDeviceAsset = self
-        self._EndDeviceControls = value
+            y.EndDeviceAsset = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
diff --git a/CIM14/IEC61968/Metering/EndDeviceGroup.py b/CIM14/IEC61968/Metering/EndDeviceGroup.py
index 04851f8..d23003a 100644
--- a/CIM14/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM14/IEC61968/Metering/EndDeviceGroup.py
@@ -90,8 +90,7 @@ class EndDeviceGroup(IdentifiedObject):
         for x in self._EndDeviceControls:
             x.EndDeviceGroup = None
         for y in value:
-            y._EndDeviceGroup = self
-        self._EndDeviceControls = value
+            y.EndDeviceGroup = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
diff --git a/CIM14/IEC61968/Metering/IntervalReading.py b/CIM14/IEC61968/Metering/IntervalReading.py
index 78dfaab..b721b58 100644
--- a/CIM14/IEC61968/Metering/IntervalReading.py
+++ b/CIM14/IEC61968/Metering/IntervalReading.py
@@ -58,8 +58,7 @@ class IntervalReading(MeasurementValue):
         for x in self._ReadingQualities:
             x.IntervalReading = None
         for y in value:
-            y._IntervalReading = self
-        self._ReadingQualities = value
+            y.IntervalReading = self
 
     ReadingQualities = property(getReadingQualities, setReadingQualities)
 
diff --git a/CIM14/IEC61968/Metering/MeterAsset.py b/CIM14/IEC61968/Metering/MeterAsset.py
index b69e6e3..7aaa59c 100644
--- a/CIM14/IEC61968/Metering/MeterAsset.py
+++ b/CIM14/IEC61968/Metering/MeterAsset.py
@@ -74,8 +74,7 @@ class MeterAsset(EndDeviceAsset):
         for x in self._MeterReplacementWorks:
             x.OldMeterAsset = None
         for y in value:
-            y._OldMeterAsset = self
-        self._MeterReplacementWorks = value
+            y.OldMeterAsset = self
 
     MeterReplacementWorks = property(getMeterReplacementWorks, setMeterReplacementWorks)
 
@@ -96,8 +95,7 @@ class MeterAsset(EndDeviceAsset):
         for x in self._MeterServiceWorks:
             x.MeterAsset = None
         for y in value:
-            y._MeterAsset = self
-        self._MeterServiceWorks = value
+            y.MeterAsset = self
 
     MeterServiceWorks = property(getMeterServiceWorks, setMeterServiceWorks)
 
@@ -118,8 +116,7 @@ class MeterAsset(EndDeviceAsset):
         for x in self._MeterReadings:
             x.MeterAsset = None
         for y in value:
-            y._MeterAsset = self
-        self._MeterReadings = value
+            y.MeterAsset = self
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
@@ -140,8 +137,7 @@ class MeterAsset(EndDeviceAsset):
         for x in self._VendingTransactions:
             x.MeterAsset = None
         for y in value:
-            y._MeterAsset = self
-        self._VendingTransactions = value
+            y.MeterAsset = self
 
     VendingTransactions = property(getVendingTransactions, setVendingTransactions)
 
diff --git a/CIM14/IEC61968/Metering/MeterReading.py b/CIM14/IEC61968/Metering/MeterReading.py
index 8cecb5e..a05a0ab 100644
--- a/CIM14/IEC61968/Metering/MeterReading.py
+++ b/CIM14/IEC61968/Metering/MeterReading.py
@@ -73,8 +73,7 @@ class MeterReading(IdentifiedObject):
         for x in self._IntervalBlocks:
             x.MeterReading = None
         for y in value:
-            y._MeterReading = self
-        self._IntervalBlocks = value
+            y.MeterReading = self
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
@@ -129,8 +128,7 @@ class MeterReading(IdentifiedObject):
         for x in self._EndDeviceEvents:
             x.MeterReading = None
         for y in value:
-            y._MeterReading = self
-        self._EndDeviceEvents = value
+            y.MeterReading = self
 
     EndDeviceEvents = property(getEndDeviceEvents, setEndDeviceEvents)
 
diff --git a/CIM14/IEC61968/Metering/Pending.py b/CIM14/IEC61968/Metering/Pending.py
index 0886977..65fc4c7 100644
--- a/CIM14/IEC61968/Metering/Pending.py
+++ b/CIM14/IEC61968/Metering/Pending.py
@@ -74,8 +74,7 @@ class Pending(Element):
         for x in self._IntervalBlocks:
             x.Pending = None
         for y in value:
-            y._Pending = self
-        self._IntervalBlocks = value
+            y.Pending = self
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
diff --git a/CIM14/IEC61968/Metering/Reading.py b/CIM14/IEC61968/Metering/Reading.py
index 532ee3c..0f56df2 100644
--- a/CIM14/IEC61968/Metering/Reading.py
+++ b/CIM14/IEC61968/Metering/Reading.py
@@ -83,8 +83,7 @@ class Reading(MeasurementValue):
         for x in self._ReadingQualities:
             x.Reading = None
         for y in value:
-            y._Reading = self
-        self._ReadingQualities = value
+            y.Reading = self
 
     ReadingQualities = property(getReadingQualities, setReadingQualities)
 
diff --git a/CIM14/IEC61968/Metering/ReadingType.py b/CIM14/IEC61968/Metering/ReadingType.py
index 2afdecd..3a2d995 100644
--- a/CIM14/IEC61968/Metering/ReadingType.py
+++ b/CIM14/IEC61968/Metering/ReadingType.py
@@ -97,8 +97,7 @@ class ReadingType(IdentifiedObject):
         for x in self._Readings:
             x.ReadingType = None
         for y in value:
-            y._ReadingType = self
-        self._Readings = value
+            y.ReadingType = self
 
     Readings = property(getReadings, setReadings)
 
@@ -122,8 +121,7 @@ class ReadingType(IdentifiedObject):
         for x in self._IntervalBlocks:
             x.ReadingType = None
         for y in value:
-            y._ReadingType = self
-        self._IntervalBlocks = value
+            y.ReadingType = self
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
diff --git a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
index 571e3fc..06946f0 100644
--- a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -199,8 +199,7 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for x in self._EndDeviceAssets:
             x.ServiceDeliveryPoint = None
         for y in value:
-            y._ServiceDeliveryPoint = self
-        self._EndDeviceAssets = value
+            y.ServiceDeliveryPoint = self
 
     EndDeviceAssets = property(getEndDeviceAssets, setEndDeviceAssets)
 
@@ -271,8 +270,7 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for x in self._MeterReadings:
             x.ServiceDeliveryPoint = None
         for y in value:
-            y._ServiceDeliveryPoint = self
-        self._MeterReadings = value
+            y.ServiceDeliveryPoint = self
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
diff --git a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
index 2fbbad5..779fa95 100644
--- a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -120,8 +120,7 @@ class AuxiliaryAccount(Document):
         for x in self._PaymentTransactions:
             x.AuxiliaryAccount = None
         for y in value:
-            y._AuxiliaryAccount = self
-        self._PaymentTransactions = value
+            y.AuxiliaryAccount = self
 
     PaymentTransactions = property(getPaymentTransactions, setPaymentTransactions)
 
diff --git a/CIM14/IEC61968/PaymentMetering/AuxiliaryAgreement.py b/CIM14/IEC61968/PaymentMetering/AuxiliaryAgreement.py
index a63498c..cc3cf0e 100644
--- a/CIM14/IEC61968/PaymentMetering/AuxiliaryAgreement.py
+++ b/CIM14/IEC61968/PaymentMetering/AuxiliaryAgreement.py
@@ -94,8 +94,7 @@ class AuxiliaryAgreement(Agreement):
         for x in self._AuxiliaryAccounts:
             x.AuxiliaryAgreement = None
         for y in value:
-            y._AuxiliaryAgreement = self
-        self._AuxiliaryAccounts = value
+            y.AuxiliaryAgreement = self
 
     AuxiliaryAccounts = property(getAuxiliaryAccounts, setAuxiliaryAccounts)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Cashier.py b/CIM14/IEC61968/PaymentMetering/Cashier.py
index 36347da..552d6ce 100644
--- a/CIM14/IEC61968/PaymentMetering/Cashier.py
+++ b/CIM14/IEC61968/PaymentMetering/Cashier.py
@@ -57,8 +57,7 @@ class Cashier(IdentifiedObject):
         for x in self._CashierShifts:
             x.Cashier = None
         for y in value:
-            y._Cashier = self
-        self._CashierShifts = value
+            y.Cashier = self
 
     CashierShifts = property(getCashierShifts, setCashierShifts)
 
diff --git a/CIM14/IEC61968/PaymentMetering/CashierShift.py b/CIM14/IEC61968/PaymentMetering/CashierShift.py
index ebbf882..2ef7158 100644
--- a/CIM14/IEC61968/PaymentMetering/CashierShift.py
+++ b/CIM14/IEC61968/PaymentMetering/CashierShift.py
@@ -66,8 +66,7 @@ class CashierShift(Shift):
         for x in self._Receipts:
             x.CashierShift = None
         for y in value:
-            y._CashierShift = self
-        self._Receipts = value
+            y.CashierShift = self
 
     Receipts = property(getReceipts, setReceipts)
 
@@ -87,8 +86,7 @@ class CashierShift(Shift):
         for x in self._Transactions:
             x.CashierShift = None
         for y in value:
-            y._CashierShift = self
-        self._Transactions = value
+            y.CashierShift = self
 
     Transactions = property(getTransactions, setTransactions)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Charge.py b/CIM14/IEC61968/PaymentMetering/Charge.py
index 4df184d..1eb6276 100644
--- a/CIM14/IEC61968/PaymentMetering/Charge.py
+++ b/CIM14/IEC61968/PaymentMetering/Charge.py
@@ -121,8 +121,7 @@ class Charge(IdentifiedObject):
         for x in self._ChildCharges:
             x.ParentCharge = None
         for y in value:
-            y._ParentCharge = self
-        self._ChildCharges = value
+            y.ParentCharge = self
 
     ChildCharges = property(getChildCharges, setChildCharges)
 
diff --git a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
index e506627..05e463d 100644
--- a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
@@ -70,8 +70,7 @@ class MerchantAccount(Document):
         for x in self._VendorShifts:
             x.MerchantAccount = None
         for y in value:
-            y._MerchantAccount = self
-        self._VendorShifts = value
+            y.MerchantAccount = self
 
     VendorShifts = property(getVendorShifts, setVendorShifts)
 
@@ -109,8 +108,7 @@ class MerchantAccount(Document):
         for x in self._Vendors:
             x.MerchantAccount = None
         for y in value:
-            y._MerchantAccount = self
-        self._Vendors = value
+            y.MerchantAccount = self
 
     Vendors = property(getVendors, setVendors)
 
diff --git a/CIM14/IEC61968/PaymentMetering/MerchantAgreement.py b/CIM14/IEC61968/PaymentMetering/MerchantAgreement.py
index 3dcd126..f121551 100644
--- a/CIM14/IEC61968/PaymentMetering/MerchantAgreement.py
+++ b/CIM14/IEC61968/PaymentMetering/MerchantAgreement.py
@@ -50,8 +50,7 @@ class MerchantAgreement(Agreement):
         for x in self._MerchantAccounts:
             x.MerchantAgreement = None
         for y in value:
-            y._MerchantAgreement = self
-        self._MerchantAccounts = value
+            y.MerchantAgreement = self
 
     MerchantAccounts = property(getMerchantAccounts, setMerchantAccounts)
 
diff --git a/CIM14/IEC61968/PaymentMetering/PointOfSale.py b/CIM14/IEC61968/PaymentMetering/PointOfSale.py
index 09d4f69..604180a 100644
--- a/CIM14/IEC61968/PaymentMetering/PointOfSale.py
+++ b/CIM14/IEC61968/PaymentMetering/PointOfSale.py
@@ -75,8 +75,7 @@ class PointOfSale(IdentifiedObject):
         for x in self._CashierShifts:
             x.PointOfSale = None
         for y in value:
-            y._PointOfSale = self
-        self._CashierShifts = value
+            y.PointOfSale = self
 
     CashierShifts = property(getCashierShifts, setCashierShifts)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Receipt.py b/CIM14/IEC61968/PaymentMetering/Receipt.py
index 1d8617e..4cea319 100644
--- a/CIM14/IEC61968/PaymentMetering/Receipt.py
+++ b/CIM14/IEC61968/PaymentMetering/Receipt.py
@@ -86,8 +86,7 @@ class Receipt(IdentifiedObject):
         for x in self._Tenders:
             x.Receipt = None
         for y in value:
-            y._Receipt = self
-        self._Tenders = value
+            y.Receipt = self
 
     Tenders = property(getTenders, setTenders)
 
@@ -125,8 +124,7 @@ class Receipt(IdentifiedObject):
         for x in self._Transactions:
             x.Receipt = None
         for y in value:
-            y._Receipt = self
-        self._Transactions = value
+            y.Receipt = self
 
     Transactions = property(getTransactions, setTransactions)
 
diff --git a/CIM14/IEC61968/PaymentMetering/ServiceSupplier.py b/CIM14/IEC61968/PaymentMetering/ServiceSupplier.py
index 844a900..8e4ce36 100644
--- a/CIM14/IEC61968/PaymentMetering/ServiceSupplier.py
+++ b/CIM14/IEC61968/PaymentMetering/ServiceSupplier.py
@@ -62,8 +62,7 @@ class ServiceSupplier(Organisation):
         for x in self._CustomerAgreements:
             x.ServiceSupplier = None
         for y in value:
-            y._ServiceSupplier = self
-        self._CustomerAgreements = value
+            y.ServiceSupplier = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -84,8 +83,7 @@ class ServiceSupplier(Organisation):
         for x in self._ServiceDeliveryPoints:
             x.ServiceSupplier = None
         for y in value:
-            y._ServiceSupplier = self
-        self._ServiceDeliveryPoints = value
+            y.ServiceSupplier = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Transaction.py b/CIM14/IEC61968/PaymentMetering/Transaction.py
index d9948a8..458bb69 100644
--- a/CIM14/IEC61968/PaymentMetering/Transaction.py
+++ b/CIM14/IEC61968/PaymentMetering/Transaction.py
@@ -126,8 +126,7 @@ class Transaction(IdentifiedObject):
         for x in self._UserAttributes:
             x.Transaction = None
         for y in value:
-            y._Transaction = self
-        self._UserAttributes = value
+            y.Transaction = self
 
     UserAttributes = property(getUserAttributes, setUserAttributes)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Vendor.py b/CIM14/IEC61968/PaymentMetering/Vendor.py
index b29dcee..837c1b2 100644
--- a/CIM14/IEC61968/PaymentMetering/Vendor.py
+++ b/CIM14/IEC61968/PaymentMetering/Vendor.py
@@ -62,8 +62,7 @@ class Vendor(IdentifiedObject):
         for x in self._PointOfSales:
             x.Vendor = None
         for y in value:
-            y._Vendor = self
-        self._PointOfSales = value
+            y.Vendor = self
 
     PointOfSales = property(getPointOfSales, setPointOfSales)
 
@@ -101,8 +100,7 @@ class Vendor(IdentifiedObject):
         for x in self._Cashiers:
             x.Vendor = None
         for y in value:
-            y._Vendor = self
-        self._Cashiers = value
+            y.Vendor = self
 
     Cashiers = property(getCashiers, setCashiers)
 
@@ -123,8 +121,7 @@ class Vendor(IdentifiedObject):
         for x in self._VendorShifts:
             x.Vendor = None
         for y in value:
-            y._Vendor = self
-        self._VendorShifts = value
+            y.Vendor = self
 
     VendorShifts = property(getVendorShifts, setVendorShifts)
 
diff --git a/CIM14/IEC61968/PaymentMetering/VendorShift.py b/CIM14/IEC61968/PaymentMetering/VendorShift.py
index 2c2afb2..21a5f57 100644
--- a/CIM14/IEC61968/PaymentMetering/VendorShift.py
+++ b/CIM14/IEC61968/PaymentMetering/VendorShift.py
@@ -86,8 +86,7 @@ class VendorShift(Shift):
         for x in self._Transactions:
             x.VendorShift = None
         for y in value:
-            y._VendorShift = self
-        self._Transactions = value
+            y.VendorShift = self
 
     Transactions = property(getTransactions, setTransactions)
 
@@ -107,8 +106,7 @@ class VendorShift(Shift):
         for x in self._Receipts:
             x.VendorShift = None
         for y in value:
-            y._VendorShift = self
-        self._Receipts = value
+            y.VendorShift = self
 
     Receipts = property(getReceipts, setReceipts)
 
diff --git a/CIM14/IEC61968/WiresExt/DistributionTransformer.py b/CIM14/IEC61968/WiresExt/DistributionTransformer.py
index 048e0d8..9192e3f 100644
--- a/CIM14/IEC61968/WiresExt/DistributionTransformer.py
+++ b/CIM14/IEC61968/WiresExt/DistributionTransformer.py
@@ -62,8 +62,7 @@ class DistributionTransformer(Equipment):
         for x in self._Windings:
             x.Transformer = None
         for y in value:
-            y._Transformer = self
-        self._Windings = value
+            y.Transformer = self
 
     Windings = property(getWindings, setWindings)
 
@@ -84,8 +83,7 @@ class DistributionTransformer(Equipment):
         for x in self._ServiceDeliveryPoints:
             x.Transformer = None
         for y in value:
-            y._Transformer = self
-        self._ServiceDeliveryPoints = value
+            y.Transformer = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61968/WiresExt/PerLengthPhaseImpedance.py b/CIM14/IEC61968/WiresExt/PerLengthPhaseImpedance.py
index 0b33411..b317619 100644
--- a/CIM14/IEC61968/WiresExt/PerLengthPhaseImpedance.py
+++ b/CIM14/IEC61968/WiresExt/PerLengthPhaseImpedance.py
@@ -58,8 +58,7 @@ class PerLengthPhaseImpedance(IdentifiedObject):
         for x in self._ConductorSegments:
             x.PhaseImpedance = None
         for y in value:
-            y._PhaseImpedance = self
-        self._ConductorSegments = value
+            y.PhaseImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
@@ -80,8 +79,7 @@ class PerLengthPhaseImpedance(IdentifiedObject):
         for x in self._PhaseImpedanceData:
             x.PhaseImpedance = None
         for y in value:
-            y._PhaseImpedance = self
-        self._PhaseImpedanceData = value
+            y.PhaseImpedance = self
 
     PhaseImpedanceData = property(getPhaseImpedanceData, setPhaseImpedanceData)
 
diff --git a/CIM14/IEC61968/WiresExt/PerLengthSequenceImpedance.py b/CIM14/IEC61968/WiresExt/PerLengthSequenceImpedance.py
index 43d5565..0928291 100644
--- a/CIM14/IEC61968/WiresExt/PerLengthSequenceImpedance.py
+++ b/CIM14/IEC61968/WiresExt/PerLengthSequenceImpedance.py
@@ -82,8 +82,7 @@ class PerLengthSequenceImpedance(IdentifiedObject):
         for x in self._ConductorSegments:
             x.SequenceImpedance = None
         for y in value:
-            y._SequenceImpedance = self
-        self._ConductorSegments = value
+            y.SequenceImpedance = self
 
     ConductorSegments = property(getConductorSegments, setConductorSegments)
 
diff --git a/CIM14/IEC61968/WiresExt/TransformerBank.py b/CIM14/IEC61968/WiresExt/TransformerBank.py
index 11bb80d..c663bc5 100644
--- a/CIM14/IEC61968/WiresExt/TransformerBank.py
+++ b/CIM14/IEC61968/WiresExt/TransformerBank.py
@@ -54,8 +54,7 @@ class TransformerBank(Equipment):
         for x in self._Transformers:
             x.TransformerBank = None
         for y in value:
-            y._TransformerBank = self
-        self._Transformers = value
+            y.TransformerBank = self
 
     Transformers = property(getTransformers, setTransformers)
 
diff --git a/CIM14/IEC61968/WiresExt/WindingPiImpedance.py b/CIM14/IEC61968/WiresExt/WindingPiImpedance.py
index 7e5e950..59a0c03 100644
--- a/CIM14/IEC61968/WiresExt/WindingPiImpedance.py
+++ b/CIM14/IEC61968/WiresExt/WindingPiImpedance.py
@@ -82,8 +82,7 @@ class WindingPiImpedance(IdentifiedObject):
         for x in self._Windings:
             x.PiImpedance = None
         for y in value:
-            y._PiImpedance = self
-        self._Windings = value
+            y.PiImpedance = self
 
     Windings = property(getWindings, setWindings)
 
diff --git a/CIM14/IEC61970/Contingency/Contingency.py b/CIM14/IEC61970/Contingency/Contingency.py
index 646e794..a8656c7 100644
--- a/CIM14/IEC61970/Contingency/Contingency.py
+++ b/CIM14/IEC61970/Contingency/Contingency.py
@@ -54,8 +54,7 @@ class Contingency(IdentifiedObject):
         for x in self._ContingencyElement:
             x.Contingency = None
         for y in value:
-            y._Contingency = self
-        self._ContingencyElement = value
+            y.Contingency = self
 
     ContingencyElement = property(getContingencyElement, setContingencyElement)
 
diff --git a/CIM14/IEC61970/ControlArea/ControlArea.py b/CIM14/IEC61970/ControlArea/ControlArea.py
index 5ec0d5f..3157e59 100644
--- a/CIM14/IEC61970/ControlArea/ControlArea.py
+++ b/CIM14/IEC61970/ControlArea/ControlArea.py
@@ -70,8 +70,7 @@ class ControlArea(PowerSystemResource):
         for x in self._TieFlow:
             x.ControlArea = None
         for y in value:
-            y._ControlArea = self
-        self._TieFlow = value
+            y.ControlArea = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
@@ -108,8 +107,7 @@ class ControlArea(PowerSystemResource):
         for x in self._ControlAreaGeneratingUnit:
             x.ControlArea = None
         for y in value:
-            y._ControlArea = self
-        self._ControlAreaGeneratingUnit = value
+            y.ControlArea = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
diff --git a/CIM14/IEC61970/ControlArea/ControlAreaGeneratingUnit.py b/CIM14/IEC61970/ControlArea/ControlAreaGeneratingUnit.py
index 4a5bbc5..3746b61 100644
--- a/CIM14/IEC61970/ControlArea/ControlAreaGeneratingUnit.py
+++ b/CIM14/IEC61970/ControlArea/ControlAreaGeneratingUnit.py
@@ -58,8 +58,7 @@ class ControlAreaGeneratingUnit(Element):
         for x in self._AltGeneratingUnitMeas:
             x.ControlAreaGeneratingUnit = None
         for y in value:
-            y._ControlAreaGeneratingUnit = self
-        self._AltGeneratingUnitMeas = value
+            y.ControlAreaGeneratingUnit = self
 
     AltGeneratingUnitMeas = property(getAltGeneratingUnitMeas, setAltGeneratingUnitMeas)
 
diff --git a/CIM14/IEC61970/ControlArea/TieFlow.py b/CIM14/IEC61970/ControlArea/TieFlow.py
index 77dad7c..1e50251 100644
--- a/CIM14/IEC61970/ControlArea/TieFlow.py
+++ b/CIM14/IEC61970/ControlArea/TieFlow.py
@@ -79,8 +79,7 @@ class TieFlow(Element):
         for x in self._AltTieMeas:
             x.TieFlow = None
         for y in value:
-            y._TieFlow = self
-        self._AltTieMeas = value
+            y.TieFlow = self
 
     AltTieMeas = property(getAltTieMeas, setAltTieMeas)
 
diff --git a/CIM14/IEC61970/Core/BaseVoltage.py b/CIM14/IEC61970/Core/BaseVoltage.py
index caaa749..0f60688 100644
--- a/CIM14/IEC61970/Core/BaseVoltage.py
+++ b/CIM14/IEC61970/Core/BaseVoltage.py
@@ -66,8 +66,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -88,8 +87,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
@@ -110,8 +108,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._TopologicalNode:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._TopologicalNode = value
+            y.BaseVoltage = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
diff --git a/CIM14/IEC61970/Core/ConductingEquipment.py b/CIM14/IEC61970/Core/ConductingEquipment.py
index dec8477..a9f0fb4 100644
--- a/CIM14/IEC61970/Core/ConductingEquipment.py
+++ b/CIM14/IEC61970/Core/ConductingEquipment.py
@@ -70,8 +70,7 @@ class ConductingEquipment(Equipment):
         for x in self._ClearanceTags:
             x.ConductingEquipment = None
         for y in value:
-            y._ConductingEquipment = self
-        self._ClearanceTags = value
+            y.ConductingEquipment = self
 
     ClearanceTags = property(getClearanceTags, setClearanceTags)
 
@@ -108,8 +107,7 @@ class ConductingEquipment(Equipment):
         for x in self._Terminals:
             x.ConductingEquipment = None
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/IEC61970/Core/ConnectivityNode.py b/CIM14/IEC61970/Core/ConnectivityNode.py
index 3ac1660..a81055b 100644
--- a/CIM14/IEC61970/Core/ConnectivityNode.py
+++ b/CIM14/IEC61970/Core/ConnectivityNode.py
@@ -113,8 +113,7 @@ class ConnectivityNode(IdentifiedObject):
         for x in self._Terminals:
             x.ConnectivityNode = None
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM14/IEC61970/Core/ConnectivityNodeContainer.py b/CIM14/IEC61970/Core/ConnectivityNodeContainer.py
index 4610119..20d12af 100644
--- a/CIM14/IEC61970/Core/ConnectivityNodeContainer.py
+++ b/CIM14/IEC61970/Core/ConnectivityNodeContainer.py
@@ -54,8 +54,7 @@ class ConnectivityNodeContainer(PowerSystemResource):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
@@ -76,8 +75,7 @@ class ConnectivityNodeContainer(PowerSystemResource):
         for x in self._TopologicalNode:
             x.ConnectivityNodeContainer = None
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._TopologicalNode = value
+            y.ConnectivityNodeContainer = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
diff --git a/CIM14/IEC61970/Core/Curve.py b/CIM14/IEC61970/Core/Curve.py
index a4535ab..c7c2754 100644
--- a/CIM14/IEC61970/Core/Curve.py
+++ b/CIM14/IEC61970/Core/Curve.py
@@ -86,8 +86,7 @@ class Curve(IdentifiedObject):
         for x in self._CurveDatas:
             x.Curve = None
         for y in value:
-            y._Curve = self
-        self._CurveDatas = value
+            y.Curve = self
 
     CurveDatas = property(getCurveDatas, setCurveDatas)
 
diff --git a/CIM14/IEC61970/Core/Equipment.py b/CIM14/IEC61970/Core/Equipment.py
index 9650159..3a2bed5 100644
--- a/CIM14/IEC61970/Core/Equipment.py
+++ b/CIM14/IEC61970/Core/Equipment.py
@@ -70,8 +70,7 @@ class Equipment(PowerSystemResource):
         for x in self._OperationalLimitSet:
             x.Equipment = None
         for y in value:
-            y._Equipment = self
-        self._OperationalLimitSet = value
+            y.Equipment = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
@@ -92,8 +91,7 @@ class Equipment(PowerSystemResource):
         for x in self._ContingencyEquipment:
             x.Equipment = None
         for y in value:
-            y._Equipment = self
-        self._ContingencyEquipment = value
+            y.Equipment = self
 
     ContingencyEquipment = property(getContingencyEquipment, setContingencyEquipment)
 
diff --git a/CIM14/IEC61970/Core/EquipmentContainer.py b/CIM14/IEC61970/Core/EquipmentContainer.py
index 12f9a89..6426451 100644
--- a/CIM14/IEC61970/Core/EquipmentContainer.py
+++ b/CIM14/IEC61970/Core/EquipmentContainer.py
@@ -50,8 +50,7 @@ class EquipmentContainer(ConnectivityNodeContainer):
         for x in self._Equipments:
             x.EquipmentContainer = None
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/IEC61970/Core/GeographicalRegion.py b/CIM14/IEC61970/Core/GeographicalRegion.py
index cadfdef..663c269 100644
--- a/CIM14/IEC61970/Core/GeographicalRegion.py
+++ b/CIM14/IEC61970/Core/GeographicalRegion.py
@@ -50,8 +50,7 @@ class GeographicalRegion(IdentifiedObject):
         for x in self._Regions:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM14/IEC61970/Core/IrregularIntervalSchedule.py b/CIM14/IEC61970/Core/IrregularIntervalSchedule.py
index 21039ed..4e5fb74 100644
--- a/CIM14/IEC61970/Core/IrregularIntervalSchedule.py
+++ b/CIM14/IEC61970/Core/IrregularIntervalSchedule.py
@@ -50,8 +50,7 @@ class IrregularIntervalSchedule(BasicIntervalSchedule):
         for x in self._TimePoints:
             x.IntervalSchedule = None
         for y in value:
-            y._IntervalSchedule = self
-        self._TimePoints = value
+            y.IntervalSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM14/IEC61970/Core/OperatingParticipant.py b/CIM14/IEC61970/Core/OperatingParticipant.py
index 14d89ab..a378652 100644
--- a/CIM14/IEC61970/Core/OperatingParticipant.py
+++ b/CIM14/IEC61970/Core/OperatingParticipant.py
@@ -50,8 +50,7 @@ class OperatingParticipant(IdentifiedObject):
         for x in self._OperatingShare:
             x.OperatingParticipant = None
         for y in value:
-            y._OperatingParticipant = self
-        self._OperatingShare = value
+            y.OperatingParticipant = self
 
     OperatingShare = property(getOperatingShare, setOperatingShare)
 
diff --git a/CIM14/IEC61970/Core/PSRType.py b/CIM14/IEC61970/Core/PSRType.py
index e919a3f..e00f855 100644
--- a/CIM14/IEC61970/Core/PSRType.py
+++ b/CIM14/IEC61970/Core/PSRType.py
@@ -50,8 +50,7 @@ class PSRType(IdentifiedObject):
         for x in self._PowerSystemResources:
             x.PSRType = None
         for y in value:
-            y._PSRType = self
-        self._PowerSystemResources = value
+            y.PSRType = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/IEC61970/Core/PowerSystemResource.py b/CIM14/IEC61970/Core/PowerSystemResource.py
index 22624c0..82c6130 100644
--- a/CIM14/IEC61970/Core/PowerSystemResource.py
+++ b/CIM14/IEC61970/Core/PowerSystemResource.py
@@ -154,8 +154,7 @@ class PowerSystemResource(IdentifiedObject):
         for x in self._Measurements:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._Measurements = value
+            y.PowerSystemResource = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -176,8 +175,7 @@ class PowerSystemResource(IdentifiedObject):
         for x in self._OperatingShare:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._OperatingShare = value
+            y.PowerSystemResource = self
 
     OperatingShare = property(getOperatingShare, setOperatingShare)
 
@@ -242,8 +240,7 @@ class PowerSystemResource(IdentifiedObject):
         for x in self._Block:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._Block = value
+            y.PowerSystemResource = self
 
     Block = property(getBlock, setBlock)
 
diff --git a/CIM14/IEC61970/Core/RegularIntervalSchedule.py b/CIM14/IEC61970/Core/RegularIntervalSchedule.py
index 561a8bb..7dac8da 100644
--- a/CIM14/IEC61970/Core/RegularIntervalSchedule.py
+++ b/CIM14/IEC61970/Core/RegularIntervalSchedule.py
@@ -58,8 +58,7 @@ class RegularIntervalSchedule(BasicIntervalSchedule):
         for x in self._TimePoints:
             x.IntervalSchedule = None
         for y in value:
-            y._IntervalSchedule = self
-        self._TimePoints = value
+            y.IntervalSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM14/IEC61970/Core/ReportingGroup.py b/CIM14/IEC61970/Core/ReportingGroup.py
index be045eb..1359993 100644
--- a/CIM14/IEC61970/Core/ReportingGroup.py
+++ b/CIM14/IEC61970/Core/ReportingGroup.py
@@ -79,8 +79,7 @@ class ReportingGroup(IdentifiedObject):
         for x in self._TopologicalNode:
             x.ReportingGroup = None
         for y in value:
-            y._ReportingGroup = self
-        self._TopologicalNode = value
+            y.ReportingGroup = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
@@ -101,8 +100,7 @@ class ReportingGroup(IdentifiedObject):
         for x in self._BusNameMarker:
             x.ReportingGroup = None
         for y in value:
-            y._ReportingGroup = self
-        self._BusNameMarker = value
+            y.ReportingGroup = self
 
     BusNameMarker = property(getBusNameMarker, setBusNameMarker)
 
diff --git a/CIM14/IEC61970/Core/ReportingSuperGroup.py b/CIM14/IEC61970/Core/ReportingSuperGroup.py
index 17268ca..a03c6f5 100644
--- a/CIM14/IEC61970/Core/ReportingSuperGroup.py
+++ b/CIM14/IEC61970/Core/ReportingSuperGroup.py
@@ -50,8 +50,7 @@ class ReportingSuperGroup(IdentifiedObject):
         for x in self._ReportingGroup:
             x.ReportingSuperGroup = None
         for y in value:
-            y._ReportingSuperGroup = self
-        self._ReportingGroup = value
+            y.ReportingSuperGroup = self
 
     ReportingGroup = property(getReportingGroup, setReportingGroup)
 
diff --git a/CIM14/IEC61970/Core/SubGeographicalRegion.py b/CIM14/IEC61970/Core/SubGeographicalRegion.py
index bd91e41..84d4618 100644
--- a/CIM14/IEC61970/Core/SubGeographicalRegion.py
+++ b/CIM14/IEC61970/Core/SubGeographicalRegion.py
@@ -75,8 +75,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Substations:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
@@ -97,8 +96,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Lines:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
diff --git a/CIM14/IEC61970/Core/Substation.py b/CIM14/IEC61970/Core/Substation.py
index 1c400de..6b2635b 100644
--- a/CIM14/IEC61970/Core/Substation.py
+++ b/CIM14/IEC61970/Core/Substation.py
@@ -58,8 +58,7 @@ class Substation(EquipmentContainer):
         for x in self._VoltageLevels:
             x.Substation = None
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
@@ -80,8 +79,7 @@ class Substation(EquipmentContainer):
         for x in self._Bays:
             x.Substation = None
         for y in value:
-            y._Substation = self
-        self._Bays = value
+            y.Substation = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM14/IEC61970/Core/Terminal.py b/CIM14/IEC61970/Core/Terminal.py
index b4eb2bb..753503f 100644
--- a/CIM14/IEC61970/Core/Terminal.py
+++ b/CIM14/IEC61970/Core/Terminal.py
@@ -119,8 +119,7 @@ class Terminal(IdentifiedObject):
         for x in self._Block:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._Block = value
+            y.Terminal = self
 
     Block = property(getBlock, setBlock)
 
@@ -141,8 +140,7 @@ class Terminal(IdentifiedObject):
         for x in self._OperationalLimitSet:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._OperationalLimitSet = value
+            y.Terminal = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
@@ -163,8 +161,7 @@ class Terminal(IdentifiedObject):
         for x in self._HasSecond_MutualCoupling:
             x.Second_Terminal = None
         for y in value:
-            y._Second_Terminal = self
-        self._HasSecond_MutualCoupling = value
+            y.Second_Terminal = self
 
     HasSecond_MutualCoupling = property(getHasSecond_MutualCoupling, setHasSecond_MutualCoupling)
 
@@ -185,8 +182,7 @@ class Terminal(IdentifiedObject):
         for x in self._RegulatingControl:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._RegulatingControl = value
+            y.Terminal = self
 
     RegulatingControl = property(getRegulatingControl, setRegulatingControl)
 
@@ -207,8 +203,7 @@ class Terminal(IdentifiedObject):
         for x in self._Measurements:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._Measurements = value
+            y.Terminal = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -229,8 +224,7 @@ class Terminal(IdentifiedObject):
         for x in self._BranchGroupTerminal:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._BranchGroupTerminal = value
+            y.Terminal = self
 
     BranchGroupTerminal = property(getBranchGroupTerminal, setBranchGroupTerminal)
 
@@ -268,8 +262,7 @@ class Terminal(IdentifiedObject):
         for x in self._HasFirst_MutualCoupling:
             x.First_Terminal = None
         for y in value:
-            y._First_Terminal = self
-        self._HasFirst_MutualCoupling = value
+            y.First_Terminal = self
 
     HasFirst_MutualCoupling = property(getHasFirst_MutualCoupling, setHasFirst_MutualCoupling)
 
@@ -323,8 +316,7 @@ class Terminal(IdentifiedObject):
         for x in self._TieFlow:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._TieFlow = value
+            y.Terminal = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
diff --git a/CIM14/IEC61970/Core/Unit.py b/CIM14/IEC61970/Core/Unit.py
index ed416f3..32293d8 100644
--- a/CIM14/IEC61970/Core/Unit.py
+++ b/CIM14/IEC61970/Core/Unit.py
@@ -66,8 +66,7 @@ class Unit(IdentifiedObject):
         for x in self._Controls:
             x.Unit = None
         for y in value:
-            y._Unit = self
-        self._Controls = value
+            y.Unit = self
 
     Controls = property(getControls, setControls)
 
@@ -88,8 +87,7 @@ class Unit(IdentifiedObject):
         for x in self._Measurements:
             x.Unit = None
         for y in value:
-            y._Unit = self
-        self._Measurements = value
+            y.Unit = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -109,8 +107,7 @@ class Unit(IdentifiedObject):
         for x in self._MetaBlockConOutput:
             x.Unit = None
         for y in value:
-            y._Unit = self
-        self._MetaBlockConOutput = value
+            y.Unit = self
 
     MetaBlockConOutput = property(getMetaBlockConOutput, setMetaBlockConOutput)
 
@@ -130,8 +127,7 @@ class Unit(IdentifiedObject):
         for x in self._MetaBlockConInput:
             x.Unit = None
         for y in value:
-            y._Unit = self
-        self._MetaBlockConInput = value
+            y.Unit = self
 
     MetaBlockConInput = property(getMetaBlockConInput, setMetaBlockConInput)
 
@@ -152,8 +148,7 @@ class Unit(IdentifiedObject):
         for x in self._ProtectionEquipments:
             x.Unit = None
         for y in value:
-            y._Unit = self
-        self._ProtectionEquipments = value
+            y.Unit = self
 
     ProtectionEquipments = property(getProtectionEquipments, setProtectionEquipments)
 
diff --git a/CIM14/IEC61970/Core/VoltageLevel.py b/CIM14/IEC61970/Core/VoltageLevel.py
index 62617bb..e4cf9c3 100644
--- a/CIM14/IEC61970/Core/VoltageLevel.py
+++ b/CIM14/IEC61970/Core/VoltageLevel.py
@@ -83,8 +83,7 @@ class VoltageLevel(EquipmentContainer):
         for x in self._Bays:
             x.VoltageLevel = None
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM14/IEC61970/Dynamics/Block.py b/CIM14/IEC61970/Dynamics/Block.py
index c36a9ba..af6a836 100644
--- a/CIM14/IEC61970/Dynamics/Block.py
+++ b/CIM14/IEC61970/Dynamics/Block.py
@@ -126,8 +126,7 @@ class Block(PowerSystemResource):
         for x in self._blockUsageInputReference0:
             x.block0 = None
         for y in value:
-            y._block0 = self
-        self._blockUsageInputReference0 = value
+            y.block0 = self
 
     blockUsageInputReference0 = property(getblockUsageInputReference0, setblockUsageInputReference0)
 
@@ -147,8 +146,7 @@ class Block(PowerSystemResource):
         for x in self._BlockUsageOutputReference:
             x.block0 = None
         for y in value:
-            y._block0 = self
-        self._BlockUsageOutputReference = value
+            y.block0 = self
 
     BlockUsageOutputReference = property(getBlockUsageOutputReference, setBlockUsageOutputReference)
 
@@ -201,8 +199,7 @@ class Block(PowerSystemResource):
         for x in self._tieToMeasurement0:
             x.block0 = None
         for y in value:
-            y._block0 = self
-        self._tieToMeasurement0 = value
+            y.block0 = self
 
     tieToMeasurement0 = property(gettieToMeasurement0, settieToMeasurement0)
 
@@ -238,8 +235,7 @@ class Block(PowerSystemResource):
         for x in self._BlockConnection:
             x.Block = None
         for y in value:
-            y._Block = self
-        self._BlockConnection = value
+            y.Block = self
 
     BlockConnection = property(getBlockConnection, setBlockConnection)
 
@@ -259,8 +255,7 @@ class Block(PowerSystemResource):
         for x in self._BlockParameter:
             x.MemberOf_Block = None
         for y in value:
-            y._MemberOf_Block = self
-        self._BlockParameter = value
+            y.MemberOf_Block = self
 
     BlockParameter = property(getBlockParameter, setBlockParameter)
 
diff --git a/CIM14/IEC61970/Dynamics/BlockConnectivity.py b/CIM14/IEC61970/Dynamics/BlockConnectivity.py
index 9cb881b..d68d636 100644
--- a/CIM14/IEC61970/Dynamics/BlockConnectivity.py
+++ b/CIM14/IEC61970/Dynamics/BlockConnectivity.py
@@ -73,8 +73,7 @@ class BlockConnectivity(IdentifiedObject):
         for x in self._Block:
             x.MemberOf_BlockConnectivity = None
         for y in value:
-            y._MemberOf_BlockConnectivity = self
-        self._Block = value
+            y.MemberOf_BlockConnectivity = self
 
     Block = property(getBlock, setBlock)
 
@@ -94,8 +93,7 @@ class BlockConnectivity(IdentifiedObject):
         for x in self._BlockConnection:
             x.MemberOf_BlockConnectivity = None
         for y in value:
-            y._MemberOf_BlockConnectivity = self
-        self._BlockConnection = value
+            y.MemberOf_BlockConnectivity = self
 
     BlockConnection = property(getBlockConnection, setBlockConnection)
 
diff --git a/CIM14/IEC61970/Dynamics/BlockInputType.py b/CIM14/IEC61970/Dynamics/BlockInputType.py
index 793383c..1de20ec 100644
--- a/CIM14/IEC61970/Dynamics/BlockInputType.py
+++ b/CIM14/IEC61970/Dynamics/BlockInputType.py
@@ -51,8 +51,7 @@ class BlockInputType(IdentifiedObject):
         for x in self._slotInput0:
             x.blockInputType0 = None
         for y in value:
-            y._blockInputType0 = self
-        self._slotInput0 = value
+            y.blockInputType0 = self
 
     slotInput0 = property(getslotInput0, setslotInput0)
 
@@ -72,8 +71,7 @@ class BlockInputType(IdentifiedObject):
         for x in self._metaBlockInput0:
             x.blockInputType0 = None
         for y in value:
-            y._blockInputType0 = self
-        self._metaBlockInput0 = value
+            y.blockInputType0 = self
 
     metaBlockInput0 = property(getmetaBlockInput0, setmetaBlockInput0)
 
diff --git a/CIM14/IEC61970/Dynamics/BlockOutputType.py b/CIM14/IEC61970/Dynamics/BlockOutputType.py
index b1fe914..37f92c2 100644
--- a/CIM14/IEC61970/Dynamics/BlockOutputType.py
+++ b/CIM14/IEC61970/Dynamics/BlockOutputType.py
@@ -51,8 +51,7 @@ class BlockOutputType(IdentifiedObject):
         for x in self._metaBlockOutput0:
             x.blockOutputType0 = None
         for y in value:
-            y._blockOutputType0 = self
-        self._metaBlockOutput0 = value
+            y.blockOutputType0 = self
 
     metaBlockOutput0 = property(getmetaBlockOutput0, setmetaBlockOutput0)
 
@@ -72,8 +71,7 @@ class BlockOutputType(IdentifiedObject):
         for x in self._slotOutput0:
             x.blockOutputType0 = None
         for y in value:
-            y._blockOutputType0 = self
-        self._slotOutput0 = value
+            y.blockOutputType0 = self
 
     slotOutput0 = property(getslotOutput0, setslotOutput0)
 
diff --git a/CIM14/IEC61970/Dynamics/BlockType.py b/CIM14/IEC61970/Dynamics/BlockType.py
index b01dc6e..bd1ab0a 100644
--- a/CIM14/IEC61970/Dynamics/BlockType.py
+++ b/CIM14/IEC61970/Dynamics/BlockType.py
@@ -53,8 +53,7 @@ class BlockType(IdentifiedObject):
         for x in self._slot0:
             x.blockType0 = None
         for y in value:
-            y._blockType0 = self
-        self._slot0 = value
+            y.blockType0 = self
 
     slot0 = property(getslot0, setslot0)
 
@@ -74,8 +73,7 @@ class BlockType(IdentifiedObject):
         for x in self._metaBlock0:
             x.blockType0 = None
         for y in value:
-            y._blockType0 = self
-        self._metaBlock0 = value
+            y.blockType0 = self
 
     metaBlock0 = property(getmetaBlock0, setmetaBlock0)
 
diff --git a/CIM14/IEC61970/Dynamics/BlockUsageOutputReference.py b/CIM14/IEC61970/Dynamics/BlockUsageOutputReference.py
index 95df5a6..92c92e5 100644
--- a/CIM14/IEC61970/Dynamics/BlockUsageOutputReference.py
+++ b/CIM14/IEC61970/Dynamics/BlockUsageOutputReference.py
@@ -74,8 +74,7 @@ class BlockUsageOutputReference(IdentifiedObject):
         for x in self._BlockUsageInputReference:
             x.BlockUsageOutputReference = None
         for y in value:
-            y._BlockUsageOutputReference = self
-        self._BlockUsageInputReference = value
+            y.BlockUsageOutputReference = self
 
     BlockUsageInputReference = property(getBlockUsageInputReference, setBlockUsageInputReference)
 
diff --git a/CIM14/IEC61970/Dynamics/ConnectionFrame.py b/CIM14/IEC61970/Dynamics/ConnectionFrame.py
index 97afa69..1dbf94d 100644
--- a/CIM14/IEC61970/Dynamics/ConnectionFrame.py
+++ b/CIM14/IEC61970/Dynamics/ConnectionFrame.py
@@ -51,8 +51,7 @@ class ConnectionFrame(IdentifiedObject):
         for x in self._slotConnection0:
             x.connectionFrame0 = None
         for y in value:
-            y._connectionFrame0 = self
-        self._slotConnection0 = value
+            y.connectionFrame0 = self
 
     slotConnection0 = property(getslotConnection0, setslotConnection0)
 
@@ -72,8 +71,7 @@ class ConnectionFrame(IdentifiedObject):
         for x in self._slot0:
             x.connectionFrame0 = None
         for y in value:
-            y._connectionFrame0 = self
-        self._slot0 = value
+            y.connectionFrame0 = self
 
     slot0 = property(getslot0, setslot0)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlock.py b/CIM14/IEC61970/Dynamics/MetaBlock.py
index 690f377..9586652 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlock.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlock.py
@@ -97,8 +97,7 @@ class MetaBlock(IdentifiedObject):
         for x in self._MetaBlockReference:
             x.MemberOf_MetaBlock = None
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockReference = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockReference = property(getMetaBlockReference, setMetaBlockReference)
 
@@ -119,8 +118,7 @@ class MetaBlock(IdentifiedObject):
         for x in self._MetaBlockOutput:
             x.MemberOf_MetaBlock = None
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockOutput = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockOutput = property(getMetaBlockOutput, setMetaBlockOutput)
 
@@ -140,8 +138,7 @@ class MetaBlock(IdentifiedObject):
         for x in self._MetaBlockState:
             x.MemberOf_MetaBlock = None
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockState = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockState = property(getMetaBlockState, setMetaBlockState)
 
@@ -161,8 +158,7 @@ class MetaBlock(IdentifiedObject):
         for x in self._MetaBlockSignal:
             x.MemberOf_MetaBlock = None
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockSignal = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockSignal = property(getMetaBlockSignal, setMetaBlockSignal)
 
@@ -199,8 +195,7 @@ class MetaBlock(IdentifiedObject):
         for x in self._MetaBlockInput:
             x.MemberOf_MetaBlock = None
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockInput = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockInput = property(getMetaBlockInput, setMetaBlockInput)
 
@@ -220,8 +215,7 @@ class MetaBlock(IdentifiedObject):
         for x in self._blockConstant0:
             x.metaBlock0 = None
         for y in value:
-            y._metaBlock0 = self
-        self._blockConstant0 = value
+            y.metaBlock0 = self
 
     blockConstant0 = property(getblockConstant0, setblockConstant0)
 
@@ -241,8 +235,7 @@ class MetaBlock(IdentifiedObject):
         for x in self._Block:
             x.MetaBlock = None
         for y in value:
-            y._MetaBlock = self
-        self._Block = value
+            y.MetaBlock = self
 
     Block = property(getBlock, setBlock)
 
@@ -263,8 +256,7 @@ class MetaBlock(IdentifiedObject):
         for x in self._MetaBlockParameter:
             x.MemberOf_MetaBlock = None
         for y in value:
-            y._MemberOf_MetaBlock = self
-        self._MetaBlockParameter = value
+            y.MemberOf_MetaBlock = self
 
     MetaBlockParameter = property(getMetaBlockParameter, setMetaBlockParameter)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockConOutput.py b/CIM14/IEC61970/Dynamics/MetaBlockConOutput.py
index ab1e841..3b318d8 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockConOutput.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockConOutput.py
@@ -57,8 +57,7 @@ class MetaBlockConOutput(IdentifiedObject):
         for x in self._MetaBlockConSignal:
             x.MetaBlockConOutput = None
         for y in value:
-            y._MetaBlockConOutput = self
-        self._MetaBlockConSignal = value
+            y.MetaBlockConOutput = self
 
     MetaBlockConSignal = property(getMetaBlockConSignal, setMetaBlockConSignal)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockConnectable.py b/CIM14/IEC61970/Dynamics/MetaBlockConnectable.py
index eef2070..ad69dbf 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockConnectable.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockConnectable.py
@@ -81,8 +81,7 @@ class MetaBlockConnectable(IdentifiedObject):
         for x in self._StandardControlBlock_MetaBlockStateReference:
             x.StandardControlBlock_MetaBlockConnectable = None
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockStateReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockStateReference = property(getStandardControlBlock_MetaBlockStateReference, setStandardControlBlock_MetaBlockStateReference)
 
@@ -102,8 +101,7 @@ class MetaBlockConnectable(IdentifiedObject):
         for x in self._MetaBlockOutputReference:
             x.MetaBlockConnectable = None
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockOutputReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockOutputReference = property(getMetaBlockOutputReference, setMetaBlockOutputReference)
 
@@ -123,8 +121,7 @@ class MetaBlockConnectable(IdentifiedObject):
         for x in self._MetaBlockStateReference:
             x.MetaBlockConnectable = None
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockStateReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockStateReference = property(getMetaBlockStateReference, setMetaBlockStateReference)
 
@@ -145,8 +142,7 @@ class MetaBlockConnectable(IdentifiedObject):
         for x in self._BlockInputReference:
             x.BlockConnectable = None
         for y in value:
-            y._BlockConnectable = self
-        self._BlockInputReference = value
+            y.BlockConnectable = self
 
     BlockInputReference = property(getBlockInputReference, setBlockInputReference)
 
@@ -166,8 +162,7 @@ class MetaBlockConnectable(IdentifiedObject):
         for x in self._StandardControlBlock_MetaBlockInputReference:
             x.StandardControlBlock_MetaBlockConnectable = None
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockInputReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockInputReference = property(getStandardControlBlock_MetaBlockInputReference, setStandardControlBlock_MetaBlockInputReference)
 
@@ -187,8 +182,7 @@ class MetaBlockConnectable(IdentifiedObject):
         for x in self._StandardControlBlock_MetaBlockParameterReference:
             x.StandardControlBlock_MetaBlockConnectable = None
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockParameterReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockParameterReference = property(getStandardControlBlock_MetaBlockParameterReference, setStandardControlBlock_MetaBlockParameterReference)
 
@@ -208,8 +202,7 @@ class MetaBlockConnectable(IdentifiedObject):
         for x in self._MetaBlockParameterReference:
             x.MetaBlockConnectable = None
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockParameterReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockParameterReference = property(getMetaBlockParameterReference, setMetaBlockParameterReference)
 
@@ -229,8 +222,7 @@ class MetaBlockConnectable(IdentifiedObject):
         for x in self._StandardControlBlock_MetaBlockOutputReference:
             x.StandardControlBlock_MetaBlockConnectable = None
         for y in value:
-            y._StandardControlBlock_MetaBlockConnectable = self
-        self._StandardControlBlock_MetaBlockOutputReference = value
+            y.StandardControlBlock_MetaBlockConnectable = self
 
     StandardControlBlock_MetaBlockOutputReference = property(getStandardControlBlock_MetaBlockOutputReference, setStandardControlBlock_MetaBlockOutputReference)
 
@@ -250,8 +242,7 @@ class MetaBlockConnectable(IdentifiedObject):
         for x in self._MetaBlockInputReference:
             x.MetaBlockConnectable = None
         for y in value:
-            y._MetaBlockConnectable = self
-        self._MetaBlockInputReference = value
+            y.MetaBlockConnectable = self
 
     MetaBlockInputReference = property(getMetaBlockInputReference, setMetaBlockInputReference)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockConnection.py b/CIM14/IEC61970/Dynamics/MetaBlockConnection.py
index cb230fb..ad6dabd 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockConnection.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockConnection.py
@@ -67,8 +67,7 @@ class MetaBlockConnection(IdentifiedObject):
         for x in self._MetaBlockConOutput:
             x.MemberOf_MetaBlockConnection = None
         for y in value:
-            y._MemberOf_MetaBlockConnection = self
-        self._MetaBlockConOutput = value
+            y.MemberOf_MetaBlockConnection = self
 
     MetaBlockConOutput = property(getMetaBlockConOutput, setMetaBlockConOutput)
 
@@ -88,8 +87,7 @@ class MetaBlockConnection(IdentifiedObject):
         for x in self._MetaBlockConInput:
             x.MemberOf_MetaBlockConnection = None
         for y in value:
-            y._MemberOf_MetaBlockConnection = self
-        self._MetaBlockConInput = value
+            y.MemberOf_MetaBlockConnection = self
 
     MetaBlockConInput = property(getMetaBlockConInput, setMetaBlockConInput)
 
@@ -125,8 +123,7 @@ class MetaBlockConnection(IdentifiedObject):
         for x in self._BlockConnection:
             x.MetaBlockConnection = None
         for y in value:
-            y._MetaBlockConnection = self
-        self._BlockConnection = value
+            y.MetaBlockConnection = self
 
     BlockConnection = property(getBlockConnection, setBlockConnection)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockConnectivity.py b/CIM14/IEC61970/Dynamics/MetaBlockConnectivity.py
index 55ca69b..26db907 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockConnectivity.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockConnectivity.py
@@ -63,8 +63,7 @@ class MetaBlockConnectivity(IdentifiedObject):
         for x in self._BlockConnectivity:
             x.MetaBlockConnectivity = None
         for y in value:
-            y._MetaBlockConnectivity = self
-        self._BlockConnectivity = value
+            y.MetaBlockConnectivity = self
 
     BlockConnectivity = property(getBlockConnectivity, setBlockConnectivity)
 
@@ -84,8 +83,7 @@ class MetaBlockConnectivity(IdentifiedObject):
         for x in self._MetaBlockConSignal:
             x.MemberOf_MetaBlockConnectivity = None
         for y in value:
-            y._MemberOf_MetaBlockConnectivity = self
-        self._MetaBlockConSignal = value
+            y.MemberOf_MetaBlockConnectivity = self
 
     MetaBlockConSignal = property(getMetaBlockConSignal, setMetaBlockConSignal)
 
@@ -105,8 +103,7 @@ class MetaBlockConnectivity(IdentifiedObject):
         for x in self._metaBlockConnection0:
             x.metaBlockConnectivity0 = None
         for y in value:
-            y._metaBlockConnectivity0 = self
-        self._metaBlockConnection0 = value
+            y.metaBlockConnectivity0 = self
 
     metaBlockConnection0 = property(getmetaBlockConnection0, setmetaBlockConnection0)
 
@@ -126,8 +123,7 @@ class MetaBlockConnectivity(IdentifiedObject):
         for x in self._metaBlockConSignal0:
             x.metaBlockConnectivity0 = None
         for y in value:
-            y._metaBlockConnectivity0 = self
-        self._metaBlockConSignal0 = value
+            y.metaBlockConnectivity0 = self
 
     metaBlockConSignal0 = property(getmetaBlockConSignal0, setmetaBlockConSignal0)
 
@@ -147,8 +143,7 @@ class MetaBlockConnectivity(IdentifiedObject):
         for x in self._MetaBlockConnection:
             x.MemberOf_MetaBlockConnectivity = None
         for y in value:
-            y._MemberOf_MetaBlockConnectivity = self
-        self._MetaBlockConnection = value
+            y.MemberOf_MetaBlockConnectivity = self
 
     MetaBlockConnection = property(getMetaBlockConnection, setMetaBlockConnection)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockInput.py b/CIM14/IEC61970/Dynamics/MetaBlockInput.py
index ed2b174..660d534 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockInput.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockInput.py
@@ -66,8 +66,7 @@ class MetaBlockInput(MetaBlockConnectable):
         for x in self._blockInputReference0:
             x.metaBlockInput0 = None
         for y in value:
-            y._metaBlockInput0 = self
-        self._blockInputReference0 = value
+            y.metaBlockInput0 = self
 
     blockInputReference0 = property(getblockInputReference0, setblockInputReference0)
 
@@ -104,8 +103,7 @@ class MetaBlockInput(MetaBlockConnectable):
         for x in self._blockUsageInputReference0:
             x.metaBlockInput0 = None
         for y in value:
-            y._metaBlockInput0 = self
-        self._blockUsageInputReference0 = value
+            y.metaBlockInput0 = self
 
     blockUsageInputReference0 = property(getblockUsageInputReference0, setblockUsageInputReference0)
 
@@ -142,8 +140,7 @@ class MetaBlockInput(MetaBlockConnectable):
         for x in self._tieToMeasurement0:
             x.metaBlockInput0 = None
         for y in value:
-            y._metaBlockInput0 = self
-        self._tieToMeasurement0 = value
+            y.metaBlockInput0 = self
 
     tieToMeasurement0 = property(gettieToMeasurement0, settieToMeasurement0)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockOutput.py b/CIM14/IEC61970/Dynamics/MetaBlockOutput.py
index 327b4a5..d2b98f2 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockOutput.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockOutput.py
@@ -62,8 +62,7 @@ class MetaBlockOutput(MetaBlockConnectable):
         for x in self._BlockOutputReference:
             x.metaBlockOutput0 = None
         for y in value:
-            y._metaBlockOutput0 = self
-        self._BlockOutputReference = value
+            y.metaBlockOutput0 = self
 
     BlockOutputReference = property(getBlockOutputReference, setBlockOutputReference)
 
@@ -100,8 +99,7 @@ class MetaBlockOutput(MetaBlockConnectable):
         for x in self._blockUsageOutputReference0:
             x.metaBlockOutput0 = None
         for y in value:
-            y._metaBlockOutput0 = self
-        self._blockUsageOutputReference0 = value
+            y.metaBlockOutput0 = self
 
     blockUsageOutputReference0 = property(getblockUsageOutputReference0, setblockUsageOutputReference0)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockOutputReference.py b/CIM14/IEC61970/Dynamics/MetaBlockOutputReference.py
index 67cfba5..48912c6 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockOutputReference.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockOutputReference.py
@@ -91,8 +91,7 @@ class MetaBlockOutputReference(IdentifiedObject):
         for x in self._MetaBlockSignal:
             x.To = None
         for y in value:
-            y._To = self
-        self._MetaBlockSignal = value
+            y.To = self
 
     MetaBlockSignal = property(getMetaBlockSignal, setMetaBlockSignal)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockParameter.py b/CIM14/IEC61970/Dynamics/MetaBlockParameter.py
index bc13a9c..9939dca 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockParameter.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockParameter.py
@@ -53,8 +53,7 @@ class MetaBlockParameter(MetaBlockConnectable):
         for x in self._BlockParameter:
             x.MetaBlockParameter = None
         for y in value:
-            y._MetaBlockParameter = self
-        self._BlockParameter = value
+            y.MetaBlockParameter = self
 
     BlockParameter = property(getBlockParameter, setBlockParameter)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockReference.py b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
index 6480d25..a015c3c 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockReference.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
@@ -84,8 +84,7 @@ class MetaBlockReference(IdentifiedObject):
         for x in self._blockInputReference0:
             x.metaBlockReference0 = None
         for y in value:
-            y._metaBlockReference0 = self
-        self._blockInputReference0 = value
+            y.metaBlockReference0 = self
 
     blockInputReference0 = property(getblockInputReference0, setblockInputReference0)
 
@@ -150,8 +149,7 @@ class MetaBlockReference(IdentifiedObject):
         for x in self._MetaBlockStateReference:
             x.MemberOf_MetaBlockReference = None
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockStateReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockStateReference = property(getMetaBlockStateReference, setMetaBlockStateReference)
 
@@ -171,8 +169,7 @@ class MetaBlockReference(IdentifiedObject):
         for x in self._MetaBlockInputReference:
             x.MemberOf_MetaBlockReference = None
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockInputReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockInputReference = property(getMetaBlockInputReference, setMetaBlockInputReference)
 
@@ -192,8 +189,7 @@ class MetaBlockReference(IdentifiedObject):
         for x in self._MetaBlockOutputReference:
             x.MemberOf_MetaBlockReference = None
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockOutputReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockOutputReference = property(getMetaBlockOutputReference, setMetaBlockOutputReference)
 
@@ -213,8 +209,7 @@ class MetaBlockReference(IdentifiedObject):
         for x in self._BlockParameter:
             x.MemberOf_MetaBlockReference = None
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._BlockParameter = value
+            y.MemberOf_MetaBlockReference = self
 
     BlockParameter = property(getBlockParameter, setBlockParameter)
 
@@ -234,8 +229,7 @@ class MetaBlockReference(IdentifiedObject):
         for x in self._MetaBlockParameterReference:
             x.MemberOf_MetaBlockReference = None
         for y in value:
-            y._MemberOf_MetaBlockReference = self
-        self._MetaBlockParameterReference = value
+            y.MemberOf_MetaBlockReference = self
 
     MetaBlockParameterReference = property(getMetaBlockParameterReference, setMetaBlockParameterReference)
 
diff --git a/CIM14/IEC61970/Dynamics/Slot.py b/CIM14/IEC61970/Dynamics/Slot.py
index 48f17a9..423aa86 100644
--- a/CIM14/IEC61970/Dynamics/Slot.py
+++ b/CIM14/IEC61970/Dynamics/Slot.py
@@ -79,8 +79,7 @@ class Slot(IdentifiedObject):
         for x in self._slotReference0:
             x.slot0 = None
         for y in value:
-            y._slot0 = self
-        self._slotReference0 = value
+            y.slot0 = self
 
     slotReference0 = property(getslotReference0, setslotReference0)
 
@@ -100,8 +99,7 @@ class Slot(IdentifiedObject):
         for x in self._slotOutput0:
             x.slot0 = None
         for y in value:
-            y._slot0 = self
-        self._slotOutput0 = value
+            y.slot0 = self
 
     slotOutput0 = property(getslotOutput0, setslotOutput0)
 
@@ -137,8 +135,7 @@ class Slot(IdentifiedObject):
         for x in self._slotInput0:
             x.slot0 = None
         for y in value:
-            y._slot0 = self
-        self._slotInput0 = value
+            y.slot0 = self
 
     slotInput0 = property(getslotInput0, setslotInput0)
 
diff --git a/CIM14/IEC61970/Dynamics/SlotOutput.py b/CIM14/IEC61970/Dynamics/SlotOutput.py
index f178cb3..34db5d0 100644
--- a/CIM14/IEC61970/Dynamics/SlotOutput.py
+++ b/CIM14/IEC61970/Dynamics/SlotOutput.py
@@ -71,8 +71,7 @@ class SlotOutput(IdentifiedObject):
         for x in self._slotConnection0:
             x.slotOutput0 = None
         for y in value:
-            y._slotOutput0 = self
-        self._slotConnection0 = value
+            y.slotOutput0 = self
 
     slotConnection0 = property(getslotConnection0, setslotConnection0)
 
diff --git a/CIM14/IEC61970/Dynamics/SlotReference.py b/CIM14/IEC61970/Dynamics/SlotReference.py
index 3940b5a..f08a7e9 100644
--- a/CIM14/IEC61970/Dynamics/SlotReference.py
+++ b/CIM14/IEC61970/Dynamics/SlotReference.py
@@ -73,8 +73,7 @@ class SlotReference(IdentifiedObject):
         for x in self._block0:
             x.slotReference0 = None
         for y in value:
-            y._slotReference0 = self
-        self._block0 = value
+            y.slotReference0 = self
 
     block0 = property(getblock0, setblock0)
 
diff --git a/CIM14/IEC61970/Dynamics/UserBlockParameter.py b/CIM14/IEC61970/Dynamics/UserBlockParameter.py
index 12f1ec5..c83b51a 100644
--- a/CIM14/IEC61970/Dynamics/UserBlockParameter.py
+++ b/CIM14/IEC61970/Dynamics/UserBlockParameter.py
@@ -49,8 +49,7 @@ class UserBlockParameter(MetaBlockParameter):
         for x in self._BlockUsageParameter:
             x.UserBlockParameter = None
         for y in value:
-            y._UserBlockParameter = self
-        self._BlockUsageParameter = value
+            y.UserBlockParameter = self
 
     BlockUsageParameter = property(getBlockUsageParameter, setBlockUsageParameter)
 
diff --git a/CIM14/IEC61970/Equivalents/EquivalentNetwork.py b/CIM14/IEC61970/Equivalents/EquivalentNetwork.py
index e416074..ac698fc 100644
--- a/CIM14/IEC61970/Equivalents/EquivalentNetwork.py
+++ b/CIM14/IEC61970/Equivalents/EquivalentNetwork.py
@@ -50,8 +50,7 @@ class EquivalentNetwork(ConnectivityNodeContainer):
         for x in self._EquivalentEquipments:
             x.EquivalentNetwork = None
         for y in value:
-            y._EquivalentNetwork = self
-        self._EquivalentEquipments = value
+            y.EquivalentNetwork = self
 
     EquivalentEquipments = property(getEquivalentEquipments, setEquivalentEquipments)
 
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py b/CIM14/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py
index 55bb26a..ff1a9b0 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py
@@ -54,8 +54,7 @@ class HeatRecoveryBoiler(FossilSteamSupply):
         for x in self._CombustionTurbines:
             x.HeatRecoveryBoiler = None
         for y in value:
-            y._HeatRecoveryBoiler = self
-        self._CombustionTurbines = value
+            y.HeatRecoveryBoiler = self
 
     CombustionTurbines = property(getCombustionTurbines, setCombustionTurbines)
 
diff --git a/CIM14/IEC61970/Generation/Production/CogenerationPlant.py b/CIM14/IEC61970/Generation/Production/CogenerationPlant.py
index d8d1f77..694c57a 100644
--- a/CIM14/IEC61970/Generation/Production/CogenerationPlant.py
+++ b/CIM14/IEC61970/Generation/Production/CogenerationPlant.py
@@ -74,8 +74,7 @@ class CogenerationPlant(PowerSystemResource):
         for x in self._ThermalGeneratingUnits:
             x.CogenerationPlant = None
         for y in value:
-            y._CogenerationPlant = self
-        self._ThermalGeneratingUnits = value
+            y.CogenerationPlant = self
 
     ThermalGeneratingUnits = property(getThermalGeneratingUnits, setThermalGeneratingUnits)
 
diff --git a/CIM14/IEC61970/Generation/Production/CombinedCyclePlant.py b/CIM14/IEC61970/Generation/Production/CombinedCyclePlant.py
index e078cd1..895ba34 100644
--- a/CIM14/IEC61970/Generation/Production/CombinedCyclePlant.py
+++ b/CIM14/IEC61970/Generation/Production/CombinedCyclePlant.py
@@ -54,8 +54,7 @@ class CombinedCyclePlant(PowerSystemResource):
         for x in self._ThermalGeneratingUnits:
             x.CombinedCyclePlant = None
         for y in value:
-            y._CombinedCyclePlant = self
-        self._ThermalGeneratingUnits = value
+            y.CombinedCyclePlant = self
 
     ThermalGeneratingUnits = property(getThermalGeneratingUnits, setThermalGeneratingUnits)
 
diff --git a/CIM14/IEC61970/Generation/Production/FossilFuel.py b/CIM14/IEC61970/Generation/Production/FossilFuel.py
index 32091b4..a49f284 100644
--- a/CIM14/IEC61970/Generation/Production/FossilFuel.py
+++ b/CIM14/IEC61970/Generation/Production/FossilFuel.py
@@ -94,8 +94,7 @@ class FossilFuel(IdentifiedObject):
         for x in self._FuelAllocationSchedules:
             x.FossilFuel = None
         for y in value:
-            y._FossilFuel = self
-        self._FuelAllocationSchedules = value
+            y.FossilFuel = self
 
     FuelAllocationSchedules = property(getFuelAllocationSchedules, setFuelAllocationSchedules)
 
diff --git a/CIM14/IEC61970/Generation/Production/GeneratingUnit.py b/CIM14/IEC61970/Generation/Production/GeneratingUnit.py
index a025573..6692b5d 100644
--- a/CIM14/IEC61970/Generation/Production/GeneratingUnit.py
+++ b/CIM14/IEC61970/Generation/Production/GeneratingUnit.py
@@ -238,8 +238,7 @@ class GeneratingUnit(Equipment):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
@@ -260,8 +259,7 @@ class GeneratingUnit(Equipment):
         for x in self._GrossToNetActivePowerCurves:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._GrossToNetActivePowerCurves = value
+            y.GeneratingUnit = self
 
     GrossToNetActivePowerCurves = property(getGrossToNetActivePowerCurves, setGrossToNetActivePowerCurves)
 
@@ -282,8 +280,7 @@ class GeneratingUnit(Equipment):
         for x in self._GenUnitOpCostCurves:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._GenUnitOpCostCurves = value
+            y.GeneratingUnit = self
 
     GenUnitOpCostCurves = property(getGenUnitOpCostCurves, setGenUnitOpCostCurves)
 
@@ -320,8 +317,7 @@ class GeneratingUnit(Equipment):
         for x in self._ControlAreaGeneratingUnit:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._ControlAreaGeneratingUnit = value
+            y.GeneratingUnit = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
diff --git a/CIM14/IEC61970/Generation/Production/HydroGeneratingUnit.py b/CIM14/IEC61970/Generation/Production/HydroGeneratingUnit.py
index 271f3e2..d3c361a 100644
--- a/CIM14/IEC61970/Generation/Production/HydroGeneratingUnit.py
+++ b/CIM14/IEC61970/Generation/Production/HydroGeneratingUnit.py
@@ -103,8 +103,7 @@ class HydroGeneratingUnit(GeneratingUnit):
         for x in self._HydroGeneratingEfficiencyCurves:
             x.HydroGeneratingUnit = None
         for y in value:
-            y._HydroGeneratingUnit = self
-        self._HydroGeneratingEfficiencyCurves = value
+            y.HydroGeneratingUnit = self
 
     HydroGeneratingEfficiencyCurves = property(getHydroGeneratingEfficiencyCurves, setHydroGeneratingEfficiencyCurves)
 
@@ -125,8 +124,7 @@ class HydroGeneratingUnit(GeneratingUnit):
         for x in self._TailbayLossCurve:
             x.HydroGeneratingUnit = None
         for y in value:
-            y._HydroGeneratingUnit = self
-        self._TailbayLossCurve = value
+            y.HydroGeneratingUnit = self
 
     TailbayLossCurve = property(getTailbayLossCurve, setTailbayLossCurve)
 
diff --git a/CIM14/IEC61970/Generation/Production/HydroPowerPlant.py b/CIM14/IEC61970/Generation/Production/HydroPowerPlant.py
index 07e1ca4..908bcb1 100644
--- a/CIM14/IEC61970/Generation/Production/HydroPowerPlant.py
+++ b/CIM14/IEC61970/Generation/Production/HydroPowerPlant.py
@@ -98,8 +98,7 @@ class HydroPowerPlant(PowerSystemResource):
         for x in self._HydroGeneratingUnits:
             x.HydroPowerPlant = None
         for y in value:
-            y._HydroPowerPlant = self
-        self._HydroGeneratingUnits = value
+            y.HydroPowerPlant = self
 
     HydroGeneratingUnits = property(getHydroGeneratingUnits, setHydroGeneratingUnits)
 
@@ -120,8 +119,7 @@ class HydroPowerPlant(PowerSystemResource):
         for x in self._HydroPumps:
             x.HydroPowerPlant = None
         for y in value:
-            y._HydroPowerPlant = self
-        self._HydroPumps = value
+            y.HydroPowerPlant = self
 
     HydroPumps = property(getHydroPumps, setHydroPumps)
 
diff --git a/CIM14/IEC61970/Generation/Production/Reservoir.py b/CIM14/IEC61970/Generation/Production/Reservoir.py
index d825a0d..b15efc6 100644
--- a/CIM14/IEC61970/Generation/Production/Reservoir.py
+++ b/CIM14/IEC61970/Generation/Production/Reservoir.py
@@ -118,8 +118,7 @@ class Reservoir(PowerSystemResource):
         for x in self._LevelVsVolumeCurves:
             x.Reservoir = None
         for y in value:
-            y._Reservoir = self
-        self._LevelVsVolumeCurves = value
+            y.Reservoir = self
 
     LevelVsVolumeCurves = property(getLevelVsVolumeCurves, setLevelVsVolumeCurves)
 
@@ -140,8 +139,7 @@ class Reservoir(PowerSystemResource):
         for x in self._InflowForecasts:
             x.Reservoir = None
         for y in value:
-            y._Reservoir = self
-        self._InflowForecasts = value
+            y.Reservoir = self
 
     InflowForecasts = property(getInflowForecasts, setInflowForecasts)
 
@@ -178,8 +176,7 @@ class Reservoir(PowerSystemResource):
         for x in self._HydroPowerPlants:
             x.Reservoir = None
         for y in value:
-            y._Reservoir = self
-        self._HydroPowerPlants = value
+            y.Reservoir = self
 
     HydroPowerPlants = property(getHydroPowerPlants, setHydroPowerPlants)
 
@@ -200,8 +197,7 @@ class Reservoir(PowerSystemResource):
         for x in self._UpstreamFromHydroPowerPlants:
             x.GenSourcePumpDischargeReservoir = None
         for y in value:
-            y._GenSourcePumpDischargeReservoir = self
-        self._UpstreamFromHydroPowerPlants = value
+            y.GenSourcePumpDischargeReservoir = self
 
     UpstreamFromHydroPowerPlants = property(getUpstreamFromHydroPowerPlants, setUpstreamFromHydroPowerPlants)
 
@@ -239,8 +235,7 @@ class Reservoir(PowerSystemResource):
         for x in self._SpillsIntoReservoirs:
             x.SpillsFromReservoir = None
         for y in value:
-            y._SpillsFromReservoir = self
-        self._SpillsIntoReservoirs = value
+            y.SpillsFromReservoir = self
 
     SpillsIntoReservoirs = property(getSpillsIntoReservoirs, setSpillsIntoReservoirs)
 
diff --git a/CIM14/IEC61970/Generation/Production/ThermalGeneratingUnit.py b/CIM14/IEC61970/Generation/Production/ThermalGeneratingUnit.py
index 202e285..7d4d837 100644
--- a/CIM14/IEC61970/Generation/Production/ThermalGeneratingUnit.py
+++ b/CIM14/IEC61970/Generation/Production/ThermalGeneratingUnit.py
@@ -114,8 +114,7 @@ class ThermalGeneratingUnit(GeneratingUnit):
         for x in self._EmmissionAccounts:
             x.ThermalGeneratingUnit = None
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._EmmissionAccounts = value
+            y.ThermalGeneratingUnit = self
 
     EmmissionAccounts = property(getEmmissionAccounts, setEmmissionAccounts)
 
@@ -170,8 +169,7 @@ class ThermalGeneratingUnit(GeneratingUnit):
         for x in self._EmissionCurves:
             x.ThermalGeneratingUnit = None
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._EmissionCurves = value
+            y.ThermalGeneratingUnit = self
 
     EmissionCurves = property(getEmissionCurves, setEmissionCurves)
 
@@ -240,8 +238,7 @@ class ThermalGeneratingUnit(GeneratingUnit):
         for x in self._FuelAllocationSchedules:
             x.ThermalGeneratingUnit = None
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._FuelAllocationSchedules = value
+            y.ThermalGeneratingUnit = self
 
     FuelAllocationSchedules = property(getFuelAllocationSchedules, setFuelAllocationSchedules)
 
@@ -262,8 +259,7 @@ class ThermalGeneratingUnit(GeneratingUnit):
         for x in self._FossilFuels:
             x.ThermalGeneratingUnit = None
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._FossilFuels = value
+            y.ThermalGeneratingUnit = self
 
     FossilFuels = property(getFossilFuels, setFossilFuels)
 
diff --git a/CIM14/IEC61970/Informative/InfCore/ModelingAuthority.py b/CIM14/IEC61970/Informative/InfCore/ModelingAuthority.py
index 0c0ba1c..98dd7e2 100644
--- a/CIM14/IEC61970/Informative/InfCore/ModelingAuthority.py
+++ b/CIM14/IEC61970/Informative/InfCore/ModelingAuthority.py
@@ -50,8 +50,7 @@ class ModelingAuthority(IdentifiedObject):
         for x in self._ModelingAuthoritySets:
             x.ModelingAuthority = None
         for y in value:
-            y._ModelingAuthority = self
-        self._ModelingAuthoritySets = value
+            y.ModelingAuthority = self
 
     ModelingAuthoritySets = property(getModelingAuthoritySets, setModelingAuthoritySets)
 
diff --git a/CIM14/IEC61970/Informative/InfCore/ModelingAuthoritySet.py b/CIM14/IEC61970/Informative/InfCore/ModelingAuthoritySet.py
index f649c50..c495e10 100644
--- a/CIM14/IEC61970/Informative/InfCore/ModelingAuthoritySet.py
+++ b/CIM14/IEC61970/Informative/InfCore/ModelingAuthoritySet.py
@@ -71,8 +71,7 @@ class ModelingAuthoritySet(IdentifiedObject):
         for x in self._IdentifiedObjects:
             x.ModelingAuthoritySet = None
         for y in value:
-            y._ModelingAuthoritySet = self
-        self._IdentifiedObjects = value
+            y.ModelingAuthoritySet = self
 
     IdentifiedObjects = property(getIdentifiedObjects, setIdentifiedObjects)
 
diff --git a/CIM14/IEC61970/LoadModel/ConformLoadGroup.py b/CIM14/IEC61970/LoadModel/ConformLoadGroup.py
index 8d8d955..8963d5c 100644
--- a/CIM14/IEC61970/LoadModel/ConformLoadGroup.py
+++ b/CIM14/IEC61970/LoadModel/ConformLoadGroup.py
@@ -54,8 +54,7 @@ class ConformLoadGroup(LoadGroup):
         for x in self._ConformLoadSchedules:
             x.ConformLoadGroup = None
         for y in value:
-            y._ConformLoadGroup = self
-        self._ConformLoadSchedules = value
+            y.ConformLoadGroup = self
 
     ConformLoadSchedules = property(getConformLoadSchedules, setConformLoadSchedules)
 
@@ -76,8 +75,7 @@ class ConformLoadGroup(LoadGroup):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM14/IEC61970/LoadModel/DayType.py b/CIM14/IEC61970/LoadModel/DayType.py
index 6a62332..9913f3f 100644
--- a/CIM14/IEC61970/LoadModel/DayType.py
+++ b/CIM14/IEC61970/LoadModel/DayType.py
@@ -50,8 +50,7 @@ class DayType(IdentifiedObject):
         for x in self._SeasonDayTypeSchedules:
             x.DayType = None
         for y in value:
-            y._DayType = self
-        self._SeasonDayTypeSchedules = value
+            y.DayType = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM14/IEC61970/LoadModel/LoadArea.py b/CIM14/IEC61970/LoadModel/LoadArea.py
index 9b4cbe8..012fdd7 100644
--- a/CIM14/IEC61970/LoadModel/LoadArea.py
+++ b/CIM14/IEC61970/LoadModel/LoadArea.py
@@ -50,8 +50,7 @@ class LoadArea(EnergyArea):
         for x in self._SubLoadAreas:
             x.LoadArea = None
         for y in value:
-            y._LoadArea = self
-        self._SubLoadAreas = value
+            y.LoadArea = self
 
     SubLoadAreas = property(getSubLoadAreas, setSubLoadAreas)
 
diff --git a/CIM14/IEC61970/LoadModel/LoadResponseCharacteristic.py b/CIM14/IEC61970/LoadModel/LoadResponseCharacteristic.py
index 86c196e..fbb4642 100644
--- a/CIM14/IEC61970/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM14/IEC61970/LoadModel/LoadResponseCharacteristic.py
@@ -94,8 +94,7 @@ class LoadResponseCharacteristic(IdentifiedObject):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM14/IEC61970/LoadModel/NonConformLoadGroup.py b/CIM14/IEC61970/LoadModel/NonConformLoadGroup.py
index 5f79fcd..d9b3d6a 100644
--- a/CIM14/IEC61970/LoadModel/NonConformLoadGroup.py
+++ b/CIM14/IEC61970/LoadModel/NonConformLoadGroup.py
@@ -54,8 +54,7 @@ class NonConformLoadGroup(LoadGroup):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
@@ -76,8 +75,7 @@ class NonConformLoadGroup(LoadGroup):
         for x in self._NonConformLoadSchedules:
             x.NonConformLoadGroup = None
         for y in value:
-            y._NonConformLoadGroup = self
-        self._NonConformLoadSchedules = value
+            y.NonConformLoadGroup = self
 
     NonConformLoadSchedules = property(getNonConformLoadSchedules, setNonConformLoadSchedules)
 
diff --git a/CIM14/IEC61970/LoadModel/PowerCutZone.py b/CIM14/IEC61970/LoadModel/PowerCutZone.py
index c53d739..babe0f1 100644
--- a/CIM14/IEC61970/LoadModel/PowerCutZone.py
+++ b/CIM14/IEC61970/LoadModel/PowerCutZone.py
@@ -58,8 +58,7 @@ class PowerCutZone(PowerSystemResource):
         for x in self._EnergyConsumers:
             x.PowerCutZone = None
         for y in value:
-            y._PowerCutZone = self
-        self._EnergyConsumers = value
+            y.PowerCutZone = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM14/IEC61970/LoadModel/Season.py b/CIM14/IEC61970/LoadModel/Season.py
index e9988ae..1374c7e 100644
--- a/CIM14/IEC61970/LoadModel/Season.py
+++ b/CIM14/IEC61970/LoadModel/Season.py
@@ -62,8 +62,7 @@ class Season(Element):
         for x in self._SeasonDayTypeSchedules:
             x.Season = None
         for y in value:
-            y._Season = self
-        self._SeasonDayTypeSchedules = value
+            y.Season = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM14/IEC61970/LoadModel/SubLoadArea.py b/CIM14/IEC61970/LoadModel/SubLoadArea.py
index 83e4a4a..83c8919 100644
--- a/CIM14/IEC61970/LoadModel/SubLoadArea.py
+++ b/CIM14/IEC61970/LoadModel/SubLoadArea.py
@@ -54,8 +54,7 @@ class SubLoadArea(EnergyArea):
         for x in self._LoadGroups:
             x.SubLoadArea = None
         for y in value:
-            y._SubLoadArea = self
-        self._LoadGroups = value
+            y.SubLoadArea = self
 
     LoadGroups = property(getLoadGroups, setLoadGroups)
 
diff --git a/CIM14/IEC61970/Meas/Accumulator.py b/CIM14/IEC61970/Meas/Accumulator.py
index 11b8b0c..eb13204 100644
--- a/CIM14/IEC61970/Meas/Accumulator.py
+++ b/CIM14/IEC61970/Meas/Accumulator.py
@@ -86,8 +86,7 @@ class Accumulator(Measurement):
         for x in self._AccumulatorValues:
             x.Accumulator = None
         for y in value:
-            y._Accumulator = self
-        self._AccumulatorValues = value
+            y.Accumulator = self
 
     AccumulatorValues = property(getAccumulatorValues, setAccumulatorValues)
 
diff --git a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
index 8f72a34..9401643 100644
--- a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
@@ -82,8 +82,7 @@ class AccumulatorLimitSet(LimitSet):
         for x in self._Limits:
             x.LimitSet = None
         for y in value:
-            y._LimitSet = self
-        self._Limits = value
+            y.LimitSet = self
 
     Limits = property(getLimits, setLimits)
 
diff --git a/CIM14/IEC61970/Meas/Analog.py b/CIM14/IEC61970/Meas/Analog.py
index a285304..63707ab 100644
--- a/CIM14/IEC61970/Meas/Analog.py
+++ b/CIM14/IEC61970/Meas/Analog.py
@@ -118,8 +118,7 @@ class Analog(Measurement):
         for x in self._AnalogValues:
             x.Analog = None
         for y in value:
-            y._Analog = self
-        self._AnalogValues = value
+            y.Analog = self
 
     AnalogValues = property(getAnalogValues, setAnalogValues)
 
diff --git a/CIM14/IEC61970/Meas/AnalogLimitSet.py b/CIM14/IEC61970/Meas/AnalogLimitSet.py
index 4ffaad9..356f642 100644
--- a/CIM14/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM14/IEC61970/Meas/AnalogLimitSet.py
@@ -82,8 +82,7 @@ class AnalogLimitSet(LimitSet):
         for x in self._Limits:
             x.LimitSet = None
         for y in value:
-            y._LimitSet = self
-        self._Limits = value
+            y.LimitSet = self
 
     Limits = property(getLimits, setLimits)
 
diff --git a/CIM14/IEC61970/Meas/AnalogValue.py b/CIM14/IEC61970/Meas/AnalogValue.py
index 46e8171..3b5cfec 100644
--- a/CIM14/IEC61970/Meas/AnalogValue.py
+++ b/CIM14/IEC61970/Meas/AnalogValue.py
@@ -62,8 +62,7 @@ class AnalogValue(MeasurementValue):
         for x in self._AltTieMeas:
             x.AnalogValue = None
         for y in value:
-            y._AnalogValue = self
-        self._AltTieMeas = value
+            y.AnalogValue = self
 
     AltTieMeas = property(getAltTieMeas, setAltTieMeas)
 
@@ -101,8 +100,7 @@ class AnalogValue(MeasurementValue):
         for x in self._AltGeneratingUnit:
             x.AnalogValue = None
         for y in value:
-            y._AnalogValue = self
-        self._AltGeneratingUnit = value
+            y.AnalogValue = self
 
     AltGeneratingUnit = property(getAltGeneratingUnit, setAltGeneratingUnit)
 
diff --git a/CIM14/IEC61970/Meas/ControlType.py b/CIM14/IEC61970/Meas/ControlType.py
index cf7b796..12f29e0 100644
--- a/CIM14/IEC61970/Meas/ControlType.py
+++ b/CIM14/IEC61970/Meas/ControlType.py
@@ -50,8 +50,7 @@ class ControlType(IdentifiedObject):
         for x in self._Controls:
             x.ControlType = None
         for y in value:
-            y._ControlType = self
-        self._Controls = value
+            y.ControlType = self
 
     Controls = property(getControls, setControls)
 
diff --git a/CIM14/IEC61970/Meas/Discrete.py b/CIM14/IEC61970/Meas/Discrete.py
index ccb45b5..3465685 100644
--- a/CIM14/IEC61970/Meas/Discrete.py
+++ b/CIM14/IEC61970/Meas/Discrete.py
@@ -86,8 +86,7 @@ class Discrete(Measurement):
         for x in self._DiscreteValues:
             x.Discrete = None
         for y in value:
-            y._Discrete = self
-        self._DiscreteValues = value
+            y.Discrete = self
 
     DiscreteValues = property(getDiscreteValues, setDiscreteValues)
 
diff --git a/CIM14/IEC61970/Meas/Measurement.py b/CIM14/IEC61970/Meas/Measurement.py
index cc880e3..68cccca 100644
--- a/CIM14/IEC61970/Meas/Measurement.py
+++ b/CIM14/IEC61970/Meas/Measurement.py
@@ -155,8 +155,7 @@ class Measurement(IdentifiedObject):
         for x in self._tieToMeasurement0:
             x.measurement0 = None
         for y in value:
-            y._measurement0 = self
-        self._tieToMeasurement0 = value
+            y.measurement0 = self
 
     tieToMeasurement0 = property(gettieToMeasurement0, settieToMeasurement0)
 
diff --git a/CIM14/IEC61970/Meas/MeasurementValueSource.py b/CIM14/IEC61970/Meas/MeasurementValueSource.py
index 7198d33..62af6ee 100644
--- a/CIM14/IEC61970/Meas/MeasurementValueSource.py
+++ b/CIM14/IEC61970/Meas/MeasurementValueSource.py
@@ -50,8 +50,7 @@ class MeasurementValueSource(IdentifiedObject):
         for x in self._MeasurementValues:
             x.MeasurementValueSource = None
         for y in value:
-            y._MeasurementValueSource = self
-        self._MeasurementValues = value
+            y.MeasurementValueSource = self
 
     MeasurementValues = property(getMeasurementValues, setMeasurementValues)
 
diff --git a/CIM14/IEC61970/Meas/StringMeasurement.py b/CIM14/IEC61970/Meas/StringMeasurement.py
index c91d750..726845f 100644
--- a/CIM14/IEC61970/Meas/StringMeasurement.py
+++ b/CIM14/IEC61970/Meas/StringMeasurement.py
@@ -50,8 +50,7 @@ class StringMeasurement(Measurement):
         for x in self._StringMeasurementValues:
             x.StringMeasurement = None
         for y in value:
-            y._StringMeasurement = self
-        self._StringMeasurementValues = value
+            y.StringMeasurement = self
 
     StringMeasurementValues = property(getStringMeasurementValues, setStringMeasurementValues)
 
diff --git a/CIM14/IEC61970/Meas/ValueAliasSet.py b/CIM14/IEC61970/Meas/ValueAliasSet.py
index 5ec1c5d..5aeddb3 100644
--- a/CIM14/IEC61970/Meas/ValueAliasSet.py
+++ b/CIM14/IEC61970/Meas/ValueAliasSet.py
@@ -58,8 +58,7 @@ class ValueAliasSet(IdentifiedObject):
         for x in self._Commands:
             x.ValueAliasSet = None
         for y in value:
-            y._ValueAliasSet = self
-        self._Commands = value
+            y.ValueAliasSet = self
 
     Commands = property(getCommands, setCommands)
 
@@ -80,8 +79,7 @@ class ValueAliasSet(IdentifiedObject):
         for x in self._Values:
             x.ValueAliasSet = None
         for y in value:
-            y._ValueAliasSet = self
-        self._Values = value
+            y.ValueAliasSet = self
 
     Values = property(getValues, setValues)
 
@@ -102,8 +100,7 @@ class ValueAliasSet(IdentifiedObject):
         for x in self._Discretes:
             x.ValueAliasSet = None
         for y in value:
-            y._ValueAliasSet = self
-        self._Discretes = value
+            y.ValueAliasSet = self
 
     Discretes = property(getDiscretes, setDiscretes)
 
diff --git a/CIM14/IEC61970/OperationalLimits/BranchGroup.py b/CIM14/IEC61970/OperationalLimits/BranchGroup.py
index c7b02cf..85ba85a 100644
--- a/CIM14/IEC61970/OperationalLimits/BranchGroup.py
+++ b/CIM14/IEC61970/OperationalLimits/BranchGroup.py
@@ -74,8 +74,7 @@ class BranchGroup(IdentifiedObject):
         for x in self._BranchGroupTerminal:
             x.BranchGroup = None
         for y in value:
-            y._BranchGroup = self
-        self._BranchGroupTerminal = value
+            y.BranchGroup = self
 
     BranchGroupTerminal = property(getBranchGroupTerminal, setBranchGroupTerminal)
 
diff --git a/CIM14/IEC61970/OperationalLimits/OperationalLimitSet.py b/CIM14/IEC61970/OperationalLimits/OperationalLimitSet.py
index 963c8d3..cbf92cc 100644
--- a/CIM14/IEC61970/OperationalLimits/OperationalLimitSet.py
+++ b/CIM14/IEC61970/OperationalLimits/OperationalLimitSet.py
@@ -92,8 +92,7 @@ class OperationalLimitSet(IdentifiedObject):
         for x in self._OperationalLimitValue:
             x.OperationalLimitSet = None
         for y in value:
-            y._OperationalLimitSet = self
-        self._OperationalLimitValue = value
+            y.OperationalLimitSet = self
 
     OperationalLimitValue = property(getOperationalLimitValue, setOperationalLimitValue)
 
diff --git a/CIM14/IEC61970/OperationalLimits/OperationalLimitType.py b/CIM14/IEC61970/OperationalLimits/OperationalLimitType.py
index 931af50..e25b5b4 100644
--- a/CIM14/IEC61970/OperationalLimits/OperationalLimitType.py
+++ b/CIM14/IEC61970/OperationalLimits/OperationalLimitType.py
@@ -58,8 +58,7 @@ class OperationalLimitType(IdentifiedObject):
         for x in self._OperationalLimit:
             x.OperationalLimitType = None
         for y in value:
-            y._OperationalLimitType = self
-        self._OperationalLimit = value
+            y.OperationalLimitType = self
 
     OperationalLimit = property(getOperationalLimit, setOperationalLimit)
 
diff --git a/CIM14/IEC61970/Outage/ClearanceTagType.py b/CIM14/IEC61970/Outage/ClearanceTagType.py
index 36c33af..78f98e1 100644
--- a/CIM14/IEC61970/Outage/ClearanceTagType.py
+++ b/CIM14/IEC61970/Outage/ClearanceTagType.py
@@ -50,8 +50,7 @@ class ClearanceTagType(IdentifiedObject):
         for x in self._ClearanceTags:
             x.ClearanceTagType = None
         for y in value:
-            y._ClearanceTagType = self
-        self._ClearanceTags = value
+            y.ClearanceTagType = self
 
     ClearanceTags = property(getClearanceTags, setClearanceTags)
 
diff --git a/CIM14/IEC61970/Outage/OutageSchedule.py b/CIM14/IEC61970/Outage/OutageSchedule.py
index 46bd4a2..66f345a 100644
--- a/CIM14/IEC61970/Outage/OutageSchedule.py
+++ b/CIM14/IEC61970/Outage/OutageSchedule.py
@@ -54,8 +54,7 @@ class OutageSchedule(IrregularIntervalSchedule):
         for x in self._SwitchingOperations:
             x.OutageSchedule = None
         for y in value:
-            y._OutageSchedule = self
-        self._SwitchingOperations = value
+            y.OutageSchedule = self
 
     SwitchingOperations = property(getSwitchingOperations, setSwitchingOperations)
 
diff --git a/CIM14/IEC61970/SCADA/RemoteUnit.py b/CIM14/IEC61970/SCADA/RemoteUnit.py
index c262a10..ca329b0 100644
--- a/CIM14/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM14/IEC61970/SCADA/RemoteUnit.py
@@ -86,8 +86,7 @@ class RemoteUnit(PowerSystemResource):
         for x in self._RemotePoints:
             x.RemoteUnit = None
         for y in value:
-            y._RemoteUnit = self
-        self._RemotePoints = value
+            y.RemoteUnit = self
 
     RemotePoints = property(getRemotePoints, setRemotePoints)
 
diff --git a/CIM14/IEC61970/StateVariables/TopologicalIsland.py b/CIM14/IEC61970/StateVariables/TopologicalIsland.py
index b59cbe6..5ea2245 100644
--- a/CIM14/IEC61970/StateVariables/TopologicalIsland.py
+++ b/CIM14/IEC61970/StateVariables/TopologicalIsland.py
@@ -54,8 +54,7 @@ class TopologicalIsland(IdentifiedObject):
         for x in self._TopologicalNodes:
             x.TopologicalIsland = None
         for y in value:
-            y._TopologicalIsland = self
-        self._TopologicalNodes = value
+            y.TopologicalIsland = self
 
     TopologicalNodes = property(getTopologicalNodes, setTopologicalNodes)
 
diff --git a/CIM14/IEC61970/Topology/BusNameMarker.py b/CIM14/IEC61970/Topology/BusNameMarker.py
index 4ff17a2..7404ddb 100644
--- a/CIM14/IEC61970/Topology/BusNameMarker.py
+++ b/CIM14/IEC61970/Topology/BusNameMarker.py
@@ -71,8 +71,7 @@ class BusNameMarker(IdentifiedObject):
         for x in self._ConnectivityNode:
             x.BusNameMarker = None
         for y in value:
-            y._BusNameMarker = self
-        self._ConnectivityNode = value
+            y.BusNameMarker = self
 
     ConnectivityNode = property(getConnectivityNode, setConnectivityNode)
 
diff --git a/CIM14/IEC61970/Topology/TopologicalNode.py b/CIM14/IEC61970/Topology/TopologicalNode.py
index f9c72f4..0981d27 100644
--- a/CIM14/IEC61970/Topology/TopologicalNode.py
+++ b/CIM14/IEC61970/Topology/TopologicalNode.py
@@ -86,8 +86,7 @@ class TopologicalNode(IdentifiedObject):
         for x in self._Terminal:
             x.TopologicalNode = None
         for y in value:
-            y._TopologicalNode = self
-        self._Terminal = value
+            y.TopologicalNode = self
 
     Terminal = property(getTerminal, setTerminal)
 
@@ -142,8 +141,7 @@ class TopologicalNode(IdentifiedObject):
         for x in self._ConnectivityNodes:
             x.TopologicalNode = None
         for y in value:
-            y._TopologicalNode = self
-        self._ConnectivityNodes = value
+            y.TopologicalNode = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM14/IEC61970/Wires/CompositeSwitch.py b/CIM14/IEC61970/Wires/CompositeSwitch.py
index 281c5d0..e56d573 100644
--- a/CIM14/IEC61970/Wires/CompositeSwitch.py
+++ b/CIM14/IEC61970/Wires/CompositeSwitch.py
@@ -54,8 +54,7 @@ class CompositeSwitch(Equipment):
         for x in self._Switches:
             x.CompositeSwitch = None
         for y in value:
-            y._CompositeSwitch = self
-        self._Switches = value
+            y.CompositeSwitch = self
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM14/IEC61970/Wires/EnergyConsumer.py b/CIM14/IEC61970/Wires/EnergyConsumer.py
index c85186a..22c75c3 100644
--- a/CIM14/IEC61970/Wires/EnergyConsumer.py
+++ b/CIM14/IEC61970/Wires/EnergyConsumer.py
@@ -125,8 +125,7 @@ class EnergyConsumer(ConductingEquipment):
         for x in self._ServiceDeliveryPoints:
             x.EnergyConsumer = None
         for y in value:
-            y._EnergyConsumer = self
-        self._ServiceDeliveryPoints = value
+            y.EnergyConsumer = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61970/Wires/PowerTransformer.py b/CIM14/IEC61970/Wires/PowerTransformer.py
index a81500f..b3ebe6f 100644
--- a/CIM14/IEC61970/Wires/PowerTransformer.py
+++ b/CIM14/IEC61970/Wires/PowerTransformer.py
@@ -66,8 +66,7 @@ class PowerTransformer(Equipment):
         for x in self._TransformerWindings:
             x.PowerTransformer = None
         for y in value:
-            y._PowerTransformer = self
-        self._TransformerWindings = value
+            y.PowerTransformer = self
 
     TransformerWindings = property(getTransformerWindings, setTransformerWindings)
 
diff --git a/CIM14/IEC61970/Wires/ProtectedSwitch.py b/CIM14/IEC61970/Wires/ProtectedSwitch.py
index f7dcfb8..c17c3de 100644
--- a/CIM14/IEC61970/Wires/ProtectedSwitch.py
+++ b/CIM14/IEC61970/Wires/ProtectedSwitch.py
@@ -50,8 +50,7 @@ class ProtectedSwitch(Switch):
         for x in self._RecloseSequences:
             x.ProtectedSwitch = None
         for y in value:
-            y._ProtectedSwitch = self
-        self._RecloseSequences = value
+            y.ProtectedSwitch = self
 
     RecloseSequences = property(getRecloseSequences, setRecloseSequences)
 
diff --git a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
index 1e0c4dc..859ebf3 100644
--- a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -62,8 +62,7 @@ class ReactiveCapabilityCurve(Curve):
         for x in self._InitiallyUsedBySynchronousMachines:
             x.InitialReactiveCapabilityCurve = None
         for y in value:
-            y._InitialReactiveCapabilityCurve = self
-        self._InitiallyUsedBySynchronousMachines = value
+            y.InitialReactiveCapabilityCurve = self
 
     InitiallyUsedBySynchronousMachines = property(getInitiallyUsedBySynchronousMachines, setInitiallyUsedBySynchronousMachines)
 
diff --git a/CIM14/IEC61970/Wires/RegulatingCondEq.py b/CIM14/IEC61970/Wires/RegulatingCondEq.py
index b73b6d4..3db8fb0 100644
--- a/CIM14/IEC61970/Wires/RegulatingCondEq.py
+++ b/CIM14/IEC61970/Wires/RegulatingCondEq.py
@@ -54,8 +54,7 @@ class RegulatingCondEq(ConductingEquipment):
         for x in self._Controls:
             x.RegulatingCondEq = None
         for y in value:
-            y._RegulatingCondEq = self
-        self._Controls = value
+            y.RegulatingCondEq = self
 
     Controls = property(getControls, setControls)
 
diff --git a/CIM14/IEC61970/Wires/RegulatingControl.py b/CIM14/IEC61970/Wires/RegulatingControl.py
index 8138045..3e919de 100644
--- a/CIM14/IEC61970/Wires/RegulatingControl.py
+++ b/CIM14/IEC61970/Wires/RegulatingControl.py
@@ -78,8 +78,7 @@ class RegulatingControl(PowerSystemResource):
         for x in self._RegulationSchedule:
             x.RegulatingControl = None
         for y in value:
-            y._RegulatingControl = self
-        self._RegulationSchedule = value
+            y.RegulatingControl = self
 
     RegulationSchedule = property(getRegulationSchedule, setRegulationSchedule)
 
@@ -117,8 +116,7 @@ class RegulatingControl(PowerSystemResource):
         for x in self._TapChanger:
             x.RegulatingControl = None
         for y in value:
-            y._RegulatingControl = self
-        self._TapChanger = value
+            y.RegulatingControl = self
 
     TapChanger = property(getTapChanger, setTapChanger)
 
@@ -139,8 +137,7 @@ class RegulatingControl(PowerSystemResource):
         for x in self._RegulatingCondEq:
             x.RegulatingControl = None
         for y in value:
-            y._RegulatingControl = self
-        self._RegulatingCondEq = value
+            y.RegulatingControl = self
 
     RegulatingCondEq = property(getRegulatingCondEq, setRegulatingCondEq)
 
diff --git a/CIM14/IEC61970/Wires/RegulationSchedule.py b/CIM14/IEC61970/Wires/RegulationSchedule.py
index 2a5ed82..d25c8da 100644
--- a/CIM14/IEC61970/Wires/RegulationSchedule.py
+++ b/CIM14/IEC61970/Wires/RegulationSchedule.py
@@ -83,8 +83,7 @@ class RegulationSchedule(SeasonDayTypeSchedule):
         for x in self._VoltageControlZones:
             x.RegulationSchedule = None
         for y in value:
-            y._RegulationSchedule = self
-        self._VoltageControlZones = value
+            y.RegulationSchedule = self
 
     VoltageControlZones = property(getVoltageControlZones, setVoltageControlZones)
 
diff --git a/CIM14/IEC61970/Wires/Switch.py b/CIM14/IEC61970/Wires/Switch.py
index 0c11f45..e0f2e2c 100644
--- a/CIM14/IEC61970/Wires/Switch.py
+++ b/CIM14/IEC61970/Wires/Switch.py
@@ -150,8 +150,7 @@ class Switch(ConductingEquipment):
         for x in self._SwitchSchedules:
             x.Switch = None
         for y in value:
-            y._Switch = self
-        self._SwitchSchedules = value
+            y.Switch = self
 
     SwitchSchedules = property(getSwitchSchedules, setSwitchSchedules)
 
diff --git a/CIM14/IEC61970/Wires/TapChanger.py b/CIM14/IEC61970/Wires/TapChanger.py
index 3509bac..6d20f98 100644
--- a/CIM14/IEC61970/Wires/TapChanger.py
+++ b/CIM14/IEC61970/Wires/TapChanger.py
@@ -134,8 +134,7 @@ class TapChanger(PowerSystemResource):
         for x in self._TapSchedules:
             x.TapChanger = None
         for y in value:
-            y._TapChanger = self
-        self._TapSchedules = value
+            y.TapChanger = self
 
     TapSchedules = property(getTapSchedules, setTapSchedules)
 
diff --git a/CIM14/IEC61970/Wires/TransformerWinding.py b/CIM14/IEC61970/Wires/TransformerWinding.py
index ed41b0f..091178d 100644
--- a/CIM14/IEC61970/Wires/TransformerWinding.py
+++ b/CIM14/IEC61970/Wires/TransformerWinding.py
@@ -138,8 +138,7 @@ class TransformerWinding(ConductingEquipment):
         for x in self._From_WindingTest:
             x.From_TransformerWinding = None
         for y in value:
-            y._From_TransformerWinding = self
-        self._From_WindingTest = value
+            y.From_TransformerWinding = self
 
     From_WindingTest = property(getFrom_WindingTest, setFrom_WindingTest)
 
@@ -160,8 +159,7 @@ class TransformerWinding(ConductingEquipment):
         for x in self._To_WindingTest:
             x.To_TransformerWinding = None
         for y in value:
-            y._To_TransformerWinding = self
-        self._To_WindingTest = value
+            y.To_TransformerWinding = self
 
     To_WindingTest = property(getTo_WindingTest, setTo_WindingTest)
 
diff --git a/CIM15/CDPSM/Asset/IEC61968/AssetModels/ConductorInfo.py b/CIM15/CDPSM/Asset/IEC61968/AssetModels/ConductorInfo.py
index 56f8957..1ef66f7 100644
--- a/CIM15/CDPSM/Asset/IEC61968/AssetModels/ConductorInfo.py
+++ b/CIM15/CDPSM/Asset/IEC61968/AssetModels/ConductorInfo.py
@@ -74,8 +74,7 @@ class ConductorInfo(AssetInfo):
         for x in self._WireArrangements:
             x.ConductorInfo = None
         for y in value:
-            y._ConductorInfo = self
-        self._WireArrangements = value
+            y.ConductorInfo = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -96,8 +95,7 @@ class ConductorInfo(AssetInfo):
         for x in self._LineSegments:
             x.ConductorInfo = None
         for y in value:
-            y._ConductorInfo = self
-        self._LineSegments = value
+            y.ConductorInfo = self
 
     LineSegments = property(getLineSegments, setLineSegments)
 
diff --git a/CIM15/CDPSM/Asset/IEC61968/AssetModels/PowerTransformerInfo.py b/CIM15/CDPSM/Asset/IEC61968/AssetModels/PowerTransformerInfo.py
index e7e8cf4..12c4f7b 100644
--- a/CIM15/CDPSM/Asset/IEC61968/AssetModels/PowerTransformerInfo.py
+++ b/CIM15/CDPSM/Asset/IEC61968/AssetModels/PowerTransformerInfo.py
@@ -50,8 +50,7 @@ class PowerTransformerInfo(AssetInfo):
         for x in self._TransformerTankInfo:
             x.PowerTransformerInfo = None
         for y in value:
-            y._PowerTransformerInfo = self
-        self._TransformerTankInfo = value
+            y.PowerTransformerInfo = self
 
     TransformerTankInfo = property(getTransformerTankInfo, setTransformerTankInfo)
 
diff --git a/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerEndInfo.py b/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerEndInfo.py
index 2e82751..4138be6 100644
--- a/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerEndInfo.py
+++ b/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerEndInfo.py
@@ -107,8 +107,7 @@ class TransformerEndInfo(AssetInfo):
         for x in self._TransformerEnd:
             x.TransformerEndInfo = None
         for y in value:
-            y._TransformerEndInfo = self
-        self._TransformerEnd = value
+            y.TransformerEndInfo = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerTankInfo.py b/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerTankInfo.py
index ca3caae..c894088 100644
--- a/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerTankInfo.py
+++ b/CIM15/CDPSM/Asset/IEC61968/AssetModels/TransformerTankInfo.py
@@ -75,8 +75,7 @@ class TransformerTankInfo(AssetInfo):
         for x in self._TransformerEndInfos:
             x.TransformerTankInfo = None
         for y in value:
-            y._TransformerTankInfo = self
-        self._TransformerEndInfos = value
+            y.TransformerTankInfo = self
 
     TransformerEndInfos = property(getTransformerEndInfos, setTransformerEndInfos)
 
@@ -97,8 +96,7 @@ class TransformerTankInfo(AssetInfo):
         for x in self._TransformerTanks:
             x.TransformerTankInfo = None
         for y in value:
-            y._TransformerTankInfo = self
-        self._TransformerTanks = value
+            y.TransformerTankInfo = self
 
     TransformerTanks = property(getTransformerTanks, setTransformerTanks)
 
diff --git a/CIM15/CDPSM/Asset/IEC61968/AssetModels/WireType.py b/CIM15/CDPSM/Asset/IEC61968/AssetModels/WireType.py
index bcf59b5..f206934 100644
--- a/CIM15/CDPSM/Asset/IEC61968/AssetModels/WireType.py
+++ b/CIM15/CDPSM/Asset/IEC61968/AssetModels/WireType.py
@@ -98,8 +98,7 @@ class WireType(IdentifiedObject):
         for x in self._WireArrangements:
             x.WireType = None
         for y in value:
-            y._WireType = self
-        self._WireArrangements = value
+            y.WireType = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
diff --git a/CIM15/CDPSM/Asset/IEC61970/Core/IdentifiedObject.py b/CIM15/CDPSM/Asset/IEC61970/Core/IdentifiedObject.py
index dfa2300..d5d0e42 100644
--- a/CIM15/CDPSM/Asset/IEC61970/Core/IdentifiedObject.py
+++ b/CIM15/CDPSM/Asset/IEC61970/Core/IdentifiedObject.py
@@ -58,8 +58,7 @@ class IdentifiedObject(Element):
         for x in self._Names:
             x.IdentifiedObject = None
         for y in value:
-            y._IdentifiedObject = self
-        self._Names = value
+            y.IdentifiedObject = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Asset/IEC61970/Core/NameType.py b/CIM15/CDPSM/Asset/IEC61970/Core/NameType.py
index 32c62ea..59aea5c 100644
--- a/CIM15/CDPSM/Asset/IEC61970/Core/NameType.py
+++ b/CIM15/CDPSM/Asset/IEC61970/Core/NameType.py
@@ -50,8 +50,7 @@ class NameType(Element):
         for x in self._Names:
             x.NameType = None
         for y in value:
-            y._NameType = self
-        self._Names = value
+            y.NameType = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthPhaseImpedance.py b/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthPhaseImpedance.py
index 0d63d89..1a16013 100644
--- a/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthPhaseImpedance.py
+++ b/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthPhaseImpedance.py
@@ -50,8 +50,7 @@ class PerLengthPhaseImpedance(IdentifiedObject):
         for x in self._LineSegments:
             x.PhaseImpedance = None
         for y in value:
-            y._PhaseImpedance = self
-        self._LineSegments = value
+            y.PhaseImpedance = self
 
     LineSegments = property(getLineSegments, setLineSegments)
 
diff --git a/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthSequenceImpedance.py b/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthSequenceImpedance.py
index f91eced..375c17f 100644
--- a/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthSequenceImpedance.py
+++ b/CIM15/CDPSM/Asset/IEC61970/Wires/PerLengthSequenceImpedance.py
@@ -50,8 +50,7 @@ class PerLengthSequenceImpedance(IdentifiedObject):
         for x in self._LineSegments:
             x.SequenceImpedance = None
         for y in value:
-            y._SequenceImpedance = self
-        self._LineSegments = value
+            y.SequenceImpedance = self
 
     LineSegments = property(getLineSegments, setLineSegments)
 
diff --git a/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerCoreAdmittance.py b/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerCoreAdmittance.py
index d571e42..47f8b37 100644
--- a/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerCoreAdmittance.py
+++ b/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerCoreAdmittance.py
@@ -48,8 +48,7 @@ class TransformerCoreAdmittance(IdentifiedObject):
         for x in self._TransformerEnd:
             x.CoreAdmittance = None
         for y in value:
-            y._CoreAdmittance = self
-        self._TransformerEnd = value
+            y.CoreAdmittance = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerStarImpedance.py b/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerStarImpedance.py
index f57fbc2..9c081b8 100644
--- a/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerStarImpedance.py
+++ b/CIM15/CDPSM/Asset/IEC61970/Wires/TransformerStarImpedance.py
@@ -50,8 +50,7 @@ class TransformerStarImpedance(IdentifiedObject):
         for x in self._TransformerEnd:
             x.StarImpedance = None
         for y in value:
-            y._StarImpedance = self
-        self._TransformerEnd = value
+            y.StarImpedance = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Core/IdentifiedObject.py b/CIM15/CDPSM/Balanced/IEC61970/Core/IdentifiedObject.py
index 3893ebf..262180e 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Core/IdentifiedObject.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Core/IdentifiedObject.py
@@ -58,8 +58,7 @@ class IdentifiedObject(Element):
         for x in self._Names:
             x.IdentifiedObject = None
         for y in value:
-            y._IdentifiedObject = self
-        self._Names = value
+            y.IdentifiedObject = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Core/NameType.py b/CIM15/CDPSM/Balanced/IEC61970/Core/NameType.py
index 38d709e..232a723 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Core/NameType.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Core/NameType.py
@@ -50,8 +50,7 @@ class NameType(Element):
         for x in self._Names:
             x.NameType = None
         for y in value:
-            y._NameType = self
-        self._Names = value
+            y.NameType = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py b/CIM15/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py
index ff0f6e2..12276aa 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Generation/Production/GeneratingUnit.py
@@ -66,8 +66,7 @@ class GeneratingUnit(IdentifiedObject):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py b/CIM15/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
index 760f3d3..b429008 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/LoadModel/LoadResponseCharacteristic.py
@@ -94,8 +94,7 @@ class LoadResponseCharacteristic(IdentifiedObject):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerCoreAdmittance.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerCoreAdmittance.py
index 8fee8de..cca17e5 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerCoreAdmittance.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerCoreAdmittance.py
@@ -64,8 +64,7 @@ class TransformerCoreAdmittance(IdentifiedObject):
         for x in self._TransformerEnd:
             x.CoreAdmittance = None
         for y in value:
-            y._CoreAdmittance = self
-        self._TransformerEnd = value
+            y.CoreAdmittance = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
index 40f69e0..f9004b1 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
@@ -62,8 +62,7 @@ class TransformerEnd(IdentifiedObject):
         for x in self._FromMeshImpedance:
             x.FromTransformerEnd = None
         for y in value:
-            y._FromTransformerEnd = self
-        self._FromMeshImpedance = value
+            y.FromTransformerEnd = self
 
     FromMeshImpedance = property(getFromMeshImpedance, setFromMeshImpedance)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerStarImpedance.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerStarImpedance.py
index b70d91d..7e7ee13 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerStarImpedance.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerStarImpedance.py
@@ -66,8 +66,7 @@ class TransformerStarImpedance(IdentifiedObject):
         for x in self._TransformerEnd:
             x.StarImpedance = None
         for y in value:
-            y._StarImpedance = self
-        self._TransformerEnd = value
+            y.StarImpedance = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/BaseVoltage.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/BaseVoltage.py
index 0c45353..8ab197c 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/BaseVoltage.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/BaseVoltage.py
@@ -58,8 +58,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -80,8 +79,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/ConductingEquipment.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/ConductingEquipment.py
index e2d4c05..ec6b903 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/ConductingEquipment.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/ConductingEquipment.py
@@ -50,8 +50,7 @@ class ConductingEquipment(Equipment):
         for x in self._Terminals:
             x.ConductingEquipment = None
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNode.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNode.py
index 9c66b8c..de99520 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNode.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNode.py
@@ -71,8 +71,7 @@ class ConnectivityNode(IdentifiedObject):
         for x in self._Terminals:
             x.ConnectivityNode = None
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNodeContainer.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNodeContainer.py
index e95d8be..6722263 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNodeContainer.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/ConnectivityNodeContainer.py
@@ -50,8 +50,7 @@ class ConnectivityNodeContainer(PowerSystemResource):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/EquipmentContainer.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/EquipmentContainer.py
index 8be3eac..107cb7b 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/EquipmentContainer.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/EquipmentContainer.py
@@ -50,8 +50,7 @@ class EquipmentContainer(ConnectivityNodeContainer):
         for x in self._Equipments:
             x.EquipmentContainer = None
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/GeographicalRegion.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/GeographicalRegion.py
index f7daa15..0f21f56 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/GeographicalRegion.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/GeographicalRegion.py
@@ -50,8 +50,7 @@ class GeographicalRegion(IdentifiedObject):
         for x in self._Regions:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/IdentifiedObject.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/IdentifiedObject.py
index dd35e3d..d3e500d 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/IdentifiedObject.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/IdentifiedObject.py
@@ -58,8 +58,7 @@ class IdentifiedObject(Element):
         for x in self._Names:
             x.IdentifiedObject = None
         for y in value:
-            y._IdentifiedObject = self
-        self._Names = value
+            y.IdentifiedObject = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/NameType.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/NameType.py
index 9bab8a7..31fd5ab 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/NameType.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/NameType.py
@@ -79,8 +79,7 @@ class NameType(Element):
         for x in self._Names:
             x.NameType = None
         for y in value:
-            y._NameType = self
-        self._Names = value
+            y.NameType = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/NameTypeAuthority.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/NameTypeAuthority.py
index fe5cf9d..80fc813 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/NameTypeAuthority.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/NameTypeAuthority.py
@@ -58,8 +58,7 @@ class NameTypeAuthority(Element):
         for x in self._NameTypes:
             x.NameTypeAuthority = None
         for y in value:
-            y._NameTypeAuthority = self
-        self._NameTypes = value
+            y.NameTypeAuthority = self
 
     NameTypes = property(getNameTypes, setNameTypes)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/SubGeographicalRegion.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/SubGeographicalRegion.py
index bb4345c..a7396b7 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/SubGeographicalRegion.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/SubGeographicalRegion.py
@@ -58,8 +58,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Lines:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
@@ -80,8 +79,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Substations:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/Substation.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/Substation.py
index b9d7959..7e42a46 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/Substation.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/Substation.py
@@ -75,8 +75,7 @@ class Substation(EquipmentContainer):
         for x in self._VoltageLevels:
             x.Substation = None
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
@@ -97,8 +96,7 @@ class Substation(EquipmentContainer):
         for x in self._Bays:
             x.Substation = None
         for y in value:
-            y._Substation = self
-        self._Bays = value
+            y.Substation = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/Terminal.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/Terminal.py
index d9ae7be..0e83379 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/Terminal.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/Terminal.py
@@ -79,8 +79,7 @@ class Terminal(IdentifiedObject):
         for x in self._TransformerEnd:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._TransformerEnd = value
+            y.Terminal = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Core/VoltageLevel.py b/CIM15/CDPSM/Connectivity/IEC61970/Core/VoltageLevel.py
index e3f83cf..9721624 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Core/VoltageLevel.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Core/VoltageLevel.py
@@ -66,8 +66,7 @@ class VoltageLevel(EquipmentContainer):
         for x in self._Bays:
             x.VoltageLevel = None
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Wires/PowerTransformer.py b/CIM15/CDPSM/Connectivity/IEC61970/Wires/PowerTransformer.py
index dd9f5c7..8c8849b 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Wires/PowerTransformer.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Wires/PowerTransformer.py
@@ -54,8 +54,7 @@ class PowerTransformer(ConductingEquipment):
         for x in self._TransformerTanks:
             x.PowerTransformer = None
         for y in value:
-            y._PowerTransformer = self
-        self._TransformerTanks = value
+            y.PowerTransformer = self
 
     TransformerTanks = property(getTransformerTanks, setTransformerTanks)
 
@@ -76,8 +75,7 @@ class PowerTransformer(ConductingEquipment):
         for x in self._PowerTransformerEnd:
             x.PowerTransformer = None
         for y in value:
-            y._PowerTransformer = self
-        self._PowerTransformerEnd = value
+            y.PowerTransformer = self
 
     PowerTransformerEnd = property(getPowerTransformerEnd, setPowerTransformerEnd)
 
diff --git a/CIM15/CDPSM/Connectivity/IEC61970/Wires/TransformerTank.py b/CIM15/CDPSM/Connectivity/IEC61970/Wires/TransformerTank.py
index 5fb2d5a..fc99b78 100644
--- a/CIM15/CDPSM/Connectivity/IEC61970/Wires/TransformerTank.py
+++ b/CIM15/CDPSM/Connectivity/IEC61970/Wires/TransformerTank.py
@@ -71,8 +71,7 @@ class TransformerTank(Equipment):
         for x in self._TransformerTankEnds:
             x.TransformerTank = None
         for y in value:
-            y._TransformerTank = self
-        self._TransformerTankEnds = value
+            y.TransformerTank = self
 
     TransformerTankEnds = property(getTransformerTankEnds, setTransformerTankEnds)
 
diff --git a/CIM15/CDPSM/Geographical/IEC61968/Common/CoordinateSystem.py b/CIM15/CDPSM/Geographical/IEC61968/Common/CoordinateSystem.py
index 5ee7ff5..40cfe46 100644
--- a/CIM15/CDPSM/Geographical/IEC61968/Common/CoordinateSystem.py
+++ b/CIM15/CDPSM/Geographical/IEC61968/Common/CoordinateSystem.py
@@ -54,8 +54,7 @@ class CoordinateSystem(IdentifiedObject):
         for x in self._Location:
             x.CoordinateSystem = None
         for y in value:
-            y._CoordinateSystem = self
-        self._Location = value
+            y.CoordinateSystem = self
 
     Location = property(getLocation, setLocation)
 
diff --git a/CIM15/CDPSM/Geographical/IEC61968/Common/Location.py b/CIM15/CDPSM/Geographical/IEC61968/Common/Location.py
index 91456ad..dae4f88 100644
--- a/CIM15/CDPSM/Geographical/IEC61968/Common/Location.py
+++ b/CIM15/CDPSM/Geographical/IEC61968/Common/Location.py
@@ -58,8 +58,7 @@ class Location(IdentifiedObject):
         for x in self._PowerSystemResources:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._PowerSystemResources = value
+            y.Location = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
@@ -80,8 +79,7 @@ class Location(IdentifiedObject):
         for x in self._PositionPoints:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._PositionPoints = value
+            y.Location = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
diff --git a/CIM15/CDPSM/Geographical/IEC61970/Core/IdentifiedObject.py b/CIM15/CDPSM/Geographical/IEC61970/Core/IdentifiedObject.py
index 0b86c72..358ffc5 100644
--- a/CIM15/CDPSM/Geographical/IEC61970/Core/IdentifiedObject.py
+++ b/CIM15/CDPSM/Geographical/IEC61970/Core/IdentifiedObject.py
@@ -58,8 +58,7 @@ class IdentifiedObject(Element):
         for x in self._Names:
             x.IdentifiedObject = None
         for y in value:
-            y._IdentifiedObject = self
-        self._Names = value
+            y.IdentifiedObject = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/CDPSM/Geographical/IEC61970/Core/NameType.py b/CIM15/CDPSM/Geographical/IEC61970/Core/NameType.py
index 2d781d5..0f1d707 100644
--- a/CIM15/CDPSM/Geographical/IEC61970/Core/NameType.py
+++ b/CIM15/CDPSM/Geographical/IEC61970/Core/NameType.py
@@ -50,8 +50,7 @@ class NameType(Element):
         for x in self._Names:
             x.NameType = None
         for y in value:
-            y._NameType = self
-        self._Names = value
+            y.NameType = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/IEC61968/AssetModels/ConductorInfo.py b/CIM15/IEC61968/AssetModels/ConductorInfo.py
index 4f6c6de..6a1ae8e 100644
--- a/CIM15/IEC61968/AssetModels/ConductorInfo.py
+++ b/CIM15/IEC61968/AssetModels/ConductorInfo.py
@@ -74,8 +74,7 @@ class ConductorInfo(AssetInfo):
         for x in self._WireArrangements:
             x.ConductorInfo = None
         for y in value:
-            y._ConductorInfo = self
-        self._WireArrangements = value
+            y.ConductorInfo = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -96,8 +95,7 @@ class ConductorInfo(AssetInfo):
         for x in self._LineSegments:
             x.ConductorInfo = None
         for y in value:
-            y._ConductorInfo = self
-        self._LineSegments = value
+            y.ConductorInfo = self
 
     LineSegments = property(getLineSegments, setLineSegments)
 
diff --git a/CIM15/IEC61968/AssetModels/EndDeviceInfo.py b/CIM15/IEC61968/AssetModels/EndDeviceInfo.py
index 261e83c..5b95a7f 100644
--- a/CIM15/IEC61968/AssetModels/EndDeviceInfo.py
+++ b/CIM15/IEC61968/AssetModels/EndDeviceInfo.py
@@ -62,8 +62,7 @@ class EndDeviceInfo(AssetInfo):
         for x in self._EndDevices:
             x.EndDeviceInfo = None
         for y in value:
-            y._EndDeviceInfo = self
-        self._EndDevices = value
+            y.EndDeviceInfo = self
 
     EndDevices = property(getEndDevices, setEndDevices)
 
diff --git a/CIM15/IEC61968/AssetModels/PowerTransformerInfo.py b/CIM15/IEC61968/AssetModels/PowerTransformerInfo.py
index 236231e..772fd4e 100644
--- a/CIM15/IEC61968/AssetModels/PowerTransformerInfo.py
+++ b/CIM15/IEC61968/AssetModels/PowerTransformerInfo.py
@@ -54,8 +54,7 @@ class PowerTransformerInfo(AssetInfo):
         for x in self._TransformerTankInfo:
             x.PowerTransformerInfo = None
         for y in value:
-            y._PowerTransformerInfo = self
-        self._TransformerTankInfo = value
+            y.PowerTransformerInfo = self
 
     TransformerTankInfo = property(getTransformerTankInfo, setTransformerTankInfo)
 
@@ -76,8 +75,7 @@ class PowerTransformerInfo(AssetInfo):
         for x in self._PowerTransformers:
             x.PowerTransformerInfo = None
         for y in value:
-            y._PowerTransformerInfo = self
-        self._PowerTransformers = value
+            y.PowerTransformerInfo = self
 
     PowerTransformers = property(getPowerTransformers, setPowerTransformers)
 
diff --git a/CIM15/IEC61968/AssetModels/TapChangerInfo.py b/CIM15/IEC61968/AssetModels/TapChangerInfo.py
index e86dfba..901b827 100644
--- a/CIM15/IEC61968/AssetModels/TapChangerInfo.py
+++ b/CIM15/IEC61968/AssetModels/TapChangerInfo.py
@@ -110,8 +110,7 @@ class TapChangerInfo(AssetInfo):
         for x in self._TapChangers:
             x.TapChangerInfo = None
         for y in value:
-            y._TapChangerInfo = self
-        self._TapChangers = value
+            y.TapChangerInfo = self
 
     TapChangers = property(getTapChangers, setTapChangers)
 
diff --git a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
index f2079b2..5f765c8 100644
--- a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
+++ b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
@@ -122,8 +122,7 @@ class TransformerEndInfo(AssetInfo):
         for x in self._FromMeshImpedance:
             x.FromTransformerEndInfo = None
         for y in value:
-            y._FromTransformerEndInfo = self
-        self._FromMeshImpedance = value
+            y.FromTransformerEndInfo = self
 
     FromMeshImpedance = property(getFromMeshImpedance, setFromMeshImpedance)
 
@@ -144,8 +143,7 @@ class TransformerEndInfo(AssetInfo):
         for x in self._EnergisedEndNoLoadTest:
             x.EnergisedEnd = None
         for y in value:
-            y._EnergisedEnd = self
-        self._EnergisedEndNoLoadTest = value
+            y.EnergisedEnd = self
 
     EnergisedEndNoLoadTest = property(getEnergisedEndNoLoadTest, setEnergisedEndNoLoadTest)
 
@@ -166,8 +164,7 @@ class TransformerEndInfo(AssetInfo):
         for x in self._OpenEndOpenCircuitTests:
             x.OpenEnd = None
         for y in value:
-            y._OpenEnd = self
-        self._OpenEndOpenCircuitTests = value
+            y.OpenEnd = self
 
     OpenEndOpenCircuitTests = property(getOpenEndOpenCircuitTests, setOpenEndOpenCircuitTests)
 
@@ -216,8 +213,7 @@ class TransformerEndInfo(AssetInfo):
         for x in self._TransformerEnd:
             x.TransformerEndInfo = None
         for y in value:
-            y._TransformerEndInfo = self
-        self._TransformerEnd = value
+            y.TransformerEndInfo = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
@@ -255,8 +251,7 @@ class TransformerEndInfo(AssetInfo):
         for x in self._EnergisedEndOpenCircuitTests:
             x.EnergisedEnd = None
         for y in value:
-            y._EnergisedEnd = self
-        self._EnergisedEndOpenCircuitTests = value
+            y.EnergisedEnd = self
 
     EnergisedEndOpenCircuitTests = property(getEnergisedEndOpenCircuitTests, setEnergisedEndOpenCircuitTests)
 
@@ -305,8 +300,7 @@ class TransformerEndInfo(AssetInfo):
         for x in self._EnergisedEndShortCircuitTests:
             x.EnergisedEnd = None
         for y in value:
-            y._EnergisedEnd = self
-        self._EnergisedEndShortCircuitTests = value
+            y.EnergisedEnd = self
 
     EnergisedEndShortCircuitTests = property(getEnergisedEndShortCircuitTests, setEnergisedEndShortCircuitTests)
 
diff --git a/CIM15/IEC61968/AssetModels/TransformerTankInfo.py b/CIM15/IEC61968/AssetModels/TransformerTankInfo.py
index 8b8b54c..14f3633 100644
--- a/CIM15/IEC61968/AssetModels/TransformerTankInfo.py
+++ b/CIM15/IEC61968/AssetModels/TransformerTankInfo.py
@@ -65,8 +65,7 @@ class TransformerTankInfo(AssetInfo):
         for x in self._TransformerAssets:
             x.TransformerInfo = None
         for y in value:
-            y._TransformerInfo = self
-        self._TransformerAssets = value
+            y.TransformerInfo = self
 
     TransformerAssets = property(getTransformerAssets, setTransformerAssets)
 
@@ -87,8 +86,7 @@ class TransformerTankInfo(AssetInfo):
         for x in self._TransformerEndInfos:
             x.TransformerTankInfo = None
         for y in value:
-            y._TransformerTankInfo = self
-        self._TransformerEndInfos = value
+            y.TransformerTankInfo = self
 
     TransformerEndInfos = property(getTransformerEndInfos, setTransformerEndInfos)
 
@@ -125,8 +123,7 @@ class TransformerTankInfo(AssetInfo):
         for x in self._TransformerAssetModels:
             x.TransformerInfo = None
         for y in value:
-            y._TransformerInfo = self
-        self._TransformerAssetModels = value
+            y.TransformerInfo = self
 
     TransformerAssetModels = property(getTransformerAssetModels, setTransformerAssetModels)
 
@@ -147,8 +144,7 @@ class TransformerTankInfo(AssetInfo):
         for x in self._TransformerTanks:
             x.TransformerTankInfo = None
         for y in value:
-            y._TransformerTankInfo = self
-        self._TransformerTanks = value
+            y.TransformerTankInfo = self
 
     TransformerTanks = property(getTransformerTanks, setTransformerTanks)
 
diff --git a/CIM15/IEC61968/AssetModels/WireType.py b/CIM15/IEC61968/AssetModels/WireType.py
index ea46a5e..e4de8fd 100644
--- a/CIM15/IEC61968/AssetModels/WireType.py
+++ b/CIM15/IEC61968/AssetModels/WireType.py
@@ -102,8 +102,7 @@ class WireType(IdentifiedObject):
         for x in self._WireArrangements:
             x.WireType = None
         for y in value:
-            y._WireType = self
-        self._WireArrangements = value
+            y.WireType = self
 
     WireArrangements = property(getWireArrangements, setWireArrangements)
 
@@ -124,8 +123,7 @@ class WireType(IdentifiedObject):
         for x in self._ConcentricNeutralCableInfos:
             x.WireType = None
         for y in value:
-            y._WireType = self
-        self._ConcentricNeutralCableInfos = value
+            y.WireType = self
 
     ConcentricNeutralCableInfos = property(getConcentricNeutralCableInfos, setConcentricNeutralCableInfos)
 
diff --git a/CIM15/IEC61968/Assets/Asset.py b/CIM15/IEC61968/Assets/Asset.py
index 1b3c0ef..cd5b6c3 100644
--- a/CIM15/IEC61968/Assets/Asset.py
+++ b/CIM15/IEC61968/Assets/Asset.py
@@ -194,8 +194,7 @@ class Asset(IdentifiedObject):
         for x in self._DocumentRoles:
             x.Asset = None
         for y in value:
-            y._Asset = self
-        self._DocumentRoles = value
+            y.Asset = self
 
     DocumentRoles = property(getDocumentRoles, setDocumentRoles)
 
@@ -297,8 +296,7 @@ class Asset(IdentifiedObject):
         for x in self._ToAssetRoles:
             x.FromAsset = None
         for y in value:
-            y._FromAsset = self
-        self._ToAssetRoles = value
+            y.FromAsset = self
 
     ToAssetRoles = property(getToAssetRoles, setToAssetRoles)
 
@@ -321,8 +319,7 @@ class Asset(IdentifiedObject):
         for x in self._FromAssetRoles:
             x.ToAsset = None
         for y in value:
-            y._ToAsset = self
-        self._FromAssetRoles = value
+            y.ToAsset = self
 
     FromAssetRoles = property(getFromAssetRoles, setFromAssetRoles)
 
@@ -342,8 +339,7 @@ class Asset(IdentifiedObject):
         for x in self._AssetFunctions:
             x.Asset = None
         for y in value:
-            y._Asset = self
-        self._AssetFunctions = value
+            y.Asset = self
 
     AssetFunctions = property(getAssetFunctions, setAssetFunctions)
 
@@ -455,8 +451,7 @@ class Asset(IdentifiedObject):
         for x in self._ErpOrganisationRoles:
             x.Asset = None
         for y in value:
-            y._Asset = self
-        self._ErpOrganisationRoles = value
+            y.Asset = self
 
     ErpOrganisationRoles = property(getErpOrganisationRoles, setErpOrganisationRoles)
 
@@ -546,8 +541,7 @@ class Asset(IdentifiedObject):
         for x in self._ChangeItems:
             x.Asset = None
         for y in value:
-            y._Asset = self
-        self._ChangeItems = value
+            y.Asset = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -686,8 +680,7 @@ class Asset(IdentifiedObject):
         for x in self._Measurements:
             x.Asset = None
         for y in value:
-            y._Asset = self
-        self._Measurements = value
+            y.Asset = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM15/IEC61968/Assets/AssetContainer.py b/CIM15/IEC61968/Assets/AssetContainer.py
index 7532ad7..955500a 100644
--- a/CIM15/IEC61968/Assets/AssetContainer.py
+++ b/CIM15/IEC61968/Assets/AssetContainer.py
@@ -58,8 +58,7 @@ class AssetContainer(Asset):
         for x in self._Seals:
             x.AssetContainer = None
         for y in value:
-            y._AssetContainer = self
-        self._Seals = value
+            y.AssetContainer = self
 
     Seals = property(getSeals, setSeals)
 
@@ -79,8 +78,7 @@ class AssetContainer(Asset):
         for x in self._Assets:
             x.AssetContainer = None
         for y in value:
-            y._AssetContainer = self
-        self._Assets = value
+            y.AssetContainer = self
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM15/IEC61968/Assets/AssetModel.py b/CIM15/IEC61968/Assets/AssetModel.py
index 8894671..e2dceb0 100644
--- a/CIM15/IEC61968/Assets/AssetModel.py
+++ b/CIM15/IEC61968/Assets/AssetModel.py
@@ -69,8 +69,7 @@ class AssetModel(IdentifiedObject):
         for x in self._ErpInventoryCounts:
             x.AssetModel = None
         for y in value:
-            y._AssetModel = self
-        self._ErpInventoryCounts = value
+            y.AssetModel = self
 
     ErpInventoryCounts = property(getErpInventoryCounts, setErpInventoryCounts)
 
diff --git a/CIM15/IEC61968/Assets/ProductAssetModel.py b/CIM15/IEC61968/Assets/ProductAssetModel.py
index 2440a22..80d92c7 100644
--- a/CIM15/IEC61968/Assets/ProductAssetModel.py
+++ b/CIM15/IEC61968/Assets/ProductAssetModel.py
@@ -90,8 +90,7 @@ class ProductAssetModel(AssetModel):
         for x in self._AssetModelCatalogueItems:
             x.AssetModel = None
         for y in value:
-            y._AssetModel = self
-        self._AssetModelCatalogueItems = value
+            y.AssetModel = self
 
     AssetModelCatalogueItems = property(getAssetModelCatalogueItems, setAssetModelCatalogueItems)
 
diff --git a/CIM15/IEC61968/Common/CoordinateSystem.py b/CIM15/IEC61968/Common/CoordinateSystem.py
index c8c781b..8c50bd6 100644
--- a/CIM15/IEC61968/Common/CoordinateSystem.py
+++ b/CIM15/IEC61968/Common/CoordinateSystem.py
@@ -61,8 +61,7 @@ class CoordinateSystem(IdentifiedObject):
         for x in self._Diagrams:
             x.CoordinateSystem = None
         for y in value:
-            y._CoordinateSystem = self
-        self._Diagrams = value
+            y.CoordinateSystem = self
 
     Diagrams = property(getDiagrams, setDiagrams)
 
@@ -83,8 +82,7 @@ class CoordinateSystem(IdentifiedObject):
         for x in self._Location:
             x.CoordinateSystem = None
         for y in value:
-            y._CoordinateSystem = self
-        self._Location = value
+            y.CoordinateSystem = self
 
     Location = property(getLocation, setLocation)
 
diff --git a/CIM15/IEC61968/Common/Document.py b/CIM15/IEC61968/Common/Document.py
index 1c89cc7..9f806d9 100644
--- a/CIM15/IEC61968/Common/Document.py
+++ b/CIM15/IEC61968/Common/Document.py
@@ -130,8 +130,7 @@ class Document(IdentifiedObject):
         for x in self._ChangeItems:
             x.Document = None
         for y in value:
-            y._Document = self
-        self._ChangeItems = value
+            y.Document = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -151,8 +150,7 @@ class Document(IdentifiedObject):
         for x in self._ToDocumentRoles:
             x.FromDocument = None
         for y in value:
-            y._FromDocument = self
-        self._ToDocumentRoles = value
+            y.FromDocument = self
 
     ToDocumentRoles = property(getToDocumentRoles, setToDocumentRoles)
 
@@ -202,8 +200,7 @@ class Document(IdentifiedObject):
         for x in self._FromDocumentRoles:
             x.ToDocument = None
         for y in value:
-            y._ToDocument = self
-        self._FromDocumentRoles = value
+            y.ToDocument = self
 
     FromDocumentRoles = property(getFromDocumentRoles, setFromDocumentRoles)
 
@@ -250,8 +247,7 @@ class Document(IdentifiedObject):
         for x in self._ErpOrganisationRoles:
             x.Document = None
         for y in value:
-            y._Document = self
-        self._ErpOrganisationRoles = value
+            y.Document = self
 
     ErpOrganisationRoles = property(getErpOrganisationRoles, setErpOrganisationRoles)
 
@@ -354,8 +350,7 @@ class Document(IdentifiedObject):
         for x in self._ErpPersonRoles:
             x.Document = None
         for y in value:
-            y._Document = self
-        self._ErpPersonRoles = value
+            y.Document = self
 
     ErpPersonRoles = property(getErpPersonRoles, setErpPersonRoles)
 
@@ -375,8 +370,7 @@ class Document(IdentifiedObject):
         for x in self._ScheduledEvents:
             x.Document = None
         for y in value:
-            y._Document = self
-        self._ScheduledEvents = value
+            y.Document = self
 
     ScheduledEvents = property(getScheduledEvents, setScheduledEvents)
 
@@ -399,8 +393,7 @@ class Document(IdentifiedObject):
         for x in self._AssetRoles:
             x.Document = None
         for y in value:
-            y._Document = self
-        self._AssetRoles = value
+            y.Document = self
 
     AssetRoles = property(getAssetRoles, setAssetRoles)
 
@@ -423,8 +416,7 @@ class Document(IdentifiedObject):
         for x in self._PowerSystemResourceRoles:
             x.Document = None
         for y in value:
-            y._Document = self
-        self._PowerSystemResourceRoles = value
+            y.Document = self
 
     PowerSystemResourceRoles = property(getPowerSystemResourceRoles, setPowerSystemResourceRoles)
 
diff --git a/CIM15/IEC61968/Common/Location.py b/CIM15/IEC61968/Common/Location.py
index 5b413ad..7e2445f 100644
--- a/CIM15/IEC61968/Common/Location.py
+++ b/CIM15/IEC61968/Common/Location.py
@@ -145,8 +145,7 @@ class Location(IdentifiedObject):
         for x in self._PowerSystemResources:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._PowerSystemResources = value
+            y.Location = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
@@ -169,8 +168,7 @@ class Location(IdentifiedObject):
         for x in self._ChangeItems:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._ChangeItems = value
+            y.Location = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -261,8 +259,7 @@ class Location(IdentifiedObject):
         for x in self._Assets:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._Assets = value
+            y.Location = self
 
     Assets = property(getAssets, setAssets)
 
@@ -340,8 +337,7 @@ class Location(IdentifiedObject):
         for x in self._PositionPoints:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._PositionPoints = value
+            y.Location = self
 
     PositionPoints = property(getPositionPoints, setPositionPoints)
 
@@ -364,8 +360,7 @@ class Location(IdentifiedObject):
         for x in self._Directions:
             x.Location = None
         for y in value:
-            y._Location = self
-        self._Directions = value
+            y.Location = self
 
     Directions = property(getDirections, setDirections)
 
diff --git a/CIM15/IEC61968/Common/TimePoint.py b/CIM15/IEC61968/Common/TimePoint.py
index 903d9ef..229ebda 100644
--- a/CIM15/IEC61968/Common/TimePoint.py
+++ b/CIM15/IEC61968/Common/TimePoint.py
@@ -94,8 +94,7 @@ class TimePoint(IdentifiedObject):
         for x in self._ScheduledEvents:
             x.TimePoint = None
         for y in value:
-            y._TimePoint = self
-        self._ScheduledEvents = value
+            y.TimePoint = self
 
     ScheduledEvents = property(getScheduledEvents, setScheduledEvents)
 
diff --git a/CIM15/IEC61968/Common/TimeSchedule.py b/CIM15/IEC61968/Common/TimeSchedule.py
index 8ae5424..c3b3023 100644
--- a/CIM15/IEC61968/Common/TimeSchedule.py
+++ b/CIM15/IEC61968/Common/TimeSchedule.py
@@ -69,8 +69,7 @@ class TimeSchedule(Document):
         for x in self._TimePoints:
             x.TimeSchedule = None
         for y in value:
-            y._TimeSchedule = self
-        self._TimePoints = value
+            y.TimeSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM15/IEC61968/Customers/Customer.py b/CIM15/IEC61968/Customers/Customer.py
index fcea1f6..0447966 100644
--- a/CIM15/IEC61968/Customers/Customer.py
+++ b/CIM15/IEC61968/Customers/Customer.py
@@ -93,8 +93,7 @@ class Customer(Organisation):
         for x in self._CustomerAgreements:
             x.Customer = None
         for y in value:
-            y._Customer = self
-        self._CustomerAgreements = value
+            y.Customer = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -114,8 +113,7 @@ class Customer(Organisation):
         for x in self._ErpPersons:
             x.CustomerData = None
         for y in value:
-            y._CustomerData = self
-        self._ErpPersons = value
+            y.CustomerData = self
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
@@ -136,8 +134,7 @@ class Customer(Organisation):
         for x in self._EndDevices:
             x.Customer = None
         for y in value:
-            y._Customer = self
-        self._EndDevices = value
+            y.Customer = self
 
     EndDevices = property(getEndDevices, setEndDevices)
 
@@ -231,8 +228,7 @@ class Customer(Organisation):
         for x in self._TroubleTickets:
             x.CustomerData = None
         for y in value:
-            y._CustomerData = self
-        self._TroubleTickets = value
+            y.CustomerData = self
 
     TroubleTickets = property(getTroubleTickets, setTroubleTickets)
 
diff --git a/CIM15/IEC61968/Customers/CustomerAccount.py b/CIM15/IEC61968/Customers/CustomerAccount.py
index cd7c57a..feb2e4c 100644
--- a/CIM15/IEC61968/Customers/CustomerAccount.py
+++ b/CIM15/IEC61968/Customers/CustomerAccount.py
@@ -65,8 +65,7 @@ class CustomerAccount(Document):
         for x in self._WorkBillingInfos:
             x.CustomerAccount = None
         for y in value:
-            y._CustomerAccount = self
-        self._WorkBillingInfos = value
+            y.CustomerAccount = self
 
     WorkBillingInfos = property(getWorkBillingInfos, setWorkBillingInfos)
 
@@ -87,8 +86,7 @@ class CustomerAccount(Document):
         for x in self._CustomerAgreements:
             x.CustomerAccount = None
         for y in value:
-            y._CustomerAccount = self
-        self._CustomerAgreements = value
+            y.CustomerAccount = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -108,8 +106,7 @@ class CustomerAccount(Document):
         for x in self._ErpInvoicees:
             x.CustomerAccount = None
         for y in value:
-            y._CustomerAccount = self
-        self._ErpInvoicees = value
+            y.CustomerAccount = self
 
     ErpInvoicees = property(getErpInvoicees, setErpInvoicees)
 
@@ -130,8 +127,7 @@ class CustomerAccount(Document):
         for x in self._PaymentTransactions:
             x.CustomerAccount = None
         for y in value:
-            y._CustomerAccount = self
-        self._PaymentTransactions = value
+            y.CustomerAccount = self
 
     PaymentTransactions = property(getPaymentTransactions, setPaymentTransactions)
 
@@ -151,8 +147,7 @@ class CustomerAccount(Document):
         for x in self._CustomerBillingInfos:
             x.CustomerAccount = None
         for y in value:
-            y._CustomerAccount = self
-        self._CustomerBillingInfos = value
+            y.CustomerAccount = self
 
     CustomerBillingInfos = property(getCustomerBillingInfos, setCustomerBillingInfos)
 
diff --git a/CIM15/IEC61968/Customers/CustomerAgreement.py b/CIM15/IEC61968/Customers/CustomerAgreement.py
index d528407..861f320 100644
--- a/CIM15/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM15/IEC61968/Customers/CustomerAgreement.py
@@ -167,8 +167,7 @@ class CustomerAgreement(Agreement):
         for x in self._AuxiliaryAgreements:
             x.CustomerAgreement = None
         for y in value:
-            y._CustomerAgreement = self
-        self._AuxiliaryAgreements = value
+            y.CustomerAgreement = self
 
     AuxiliaryAgreements = property(getAuxiliaryAgreements, setAuxiliaryAgreements)
 
@@ -189,8 +188,7 @@ class CustomerAgreement(Agreement):
         for x in self._MeterReadings:
             x.CustomerAgreement = None
         for y in value:
-            y._CustomerAgreement = self
-        self._MeterReadings = value
+            y.CustomerAgreement = self
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
@@ -300,8 +298,7 @@ class CustomerAgreement(Agreement):
         for x in self._ServiceDeliveryPoints:
             x.CustomerAgreement = None
         for y in value:
-            y._CustomerAgreement = self
-        self._ServiceDeliveryPoints = value
+            y.CustomerAgreement = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
@@ -339,8 +336,7 @@ class CustomerAgreement(Agreement):
         for x in self._EndDeviceControls:
             x.CustomerAgreement = None
         for y in value:
-            y._CustomerAgreement = self
-        self._EndDeviceControls = value
+            y.CustomerAgreement = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
diff --git a/CIM15/IEC61968/Customers/PricingStructure.py b/CIM15/IEC61968/Customers/PricingStructure.py
index 49c52fa..b758904 100644
--- a/CIM15/IEC61968/Customers/PricingStructure.py
+++ b/CIM15/IEC61968/Customers/PricingStructure.py
@@ -191,8 +191,7 @@ class PricingStructure(Document):
         for x in self._Transactions:
             x.PricingStructure = None
         for y in value:
-            y._PricingStructure = self
-        self._Transactions = value
+            y.PricingStructure = self
 
     Transactions = property(getTransactions, setTransactions)
 
diff --git a/CIM15/IEC61968/Customers/ServiceCategory.py b/CIM15/IEC61968/Customers/ServiceCategory.py
index bf961a9..331a745 100644
--- a/CIM15/IEC61968/Customers/ServiceCategory.py
+++ b/CIM15/IEC61968/Customers/ServiceCategory.py
@@ -58,8 +58,7 @@ class ServiceCategory(IdentifiedObject):
         for x in self._PricingStructures:
             x.ServiceCategory = None
         for y in value:
-            y._ServiceCategory = self
-        self._PricingStructures = value
+            y.ServiceCategory = self
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
@@ -80,8 +79,7 @@ class ServiceCategory(IdentifiedObject):
         for x in self._ServiceDeliveryPoints:
             x.ServiceCategory = None
         for y in value:
-            y._ServiceCategory = self
-        self._ServiceDeliveryPoints = value
+            y.ServiceCategory = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM15/IEC61968/Customers/ServiceLocation.py b/CIM15/IEC61968/Customers/ServiceLocation.py
index 1355d5d..890418e 100644
--- a/CIM15/IEC61968/Customers/ServiceLocation.py
+++ b/CIM15/IEC61968/Customers/ServiceLocation.py
@@ -74,8 +74,7 @@ class ServiceLocation(Location):
         for x in self._EndDevices:
             x.ServiceLocation = None
         for y in value:
-            y._ServiceLocation = self
-        self._EndDevices = value
+            y.ServiceLocation = self
 
     EndDevices = property(getEndDevices, setEndDevices)
 
@@ -95,8 +94,7 @@ class ServiceLocation(Location):
         for x in self._ErpPersons:
             x.ServiceLocation = None
         for y in value:
-            y._ServiceLocation = self
-        self._ErpPersons = value
+            y.ServiceLocation = self
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
@@ -117,8 +115,7 @@ class ServiceLocation(Location):
         for x in self._ServiceDeliveryPoints:
             x.ServiceLocation = None
         for y in value:
-            y._ServiceLocation = self
-        self._ServiceDeliveryPoints = value
+            y.ServiceLocation = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM15/IEC61968/Metering/DemandResponseProgram.py b/CIM15/IEC61968/Metering/DemandResponseProgram.py
index 2de3836..8711290 100644
--- a/CIM15/IEC61968/Metering/DemandResponseProgram.py
+++ b/CIM15/IEC61968/Metering/DemandResponseProgram.py
@@ -65,8 +65,7 @@ class DemandResponseProgram(IdentifiedObject):
         for x in self._EndDeviceControls:
             x.DemandResponseProgram = None
         for y in value:
-            y._DemandResponseProgram = self
-        self._EndDeviceControls = value
+            y.DemandResponseProgram = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
@@ -90,8 +89,7 @@ class DemandResponseProgram(IdentifiedObject):
         for x in self._CustomerAgreements:
             x.DemandResponseProgram = None
         for y in value:
-            y._DemandResponseProgram = self
-        self._CustomerAgreements = value
+            y.DemandResponseProgram = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -112,8 +110,7 @@ class DemandResponseProgram(IdentifiedObject):
         for x in self._EndDeviceGroups:
             x.DemandResponseProgram = None
         for y in value:
-            y._DemandResponseProgram = self
-        self._EndDeviceGroups = value
+            y.DemandResponseProgram = self
 
     EndDeviceGroups = property(getEndDeviceGroups, setEndDeviceGroups)
 
diff --git a/CIM15/IEC61968/Metering/EndDevice.py b/CIM15/IEC61968/Metering/EndDevice.py
index ac712b7..253a8c2 100644
--- a/CIM15/IEC61968/Metering/EndDevice.py
+++ b/CIM15/IEC61968/Metering/EndDevice.py
@@ -133,8 +133,7 @@ class EndDevice(AssetContainer):
         for x in self._EndDeviceFunctions:
             x.EndDevice = None
         for y in value:
-            y._EndDevice = self
-        self._EndDeviceFunctions = value
+            y.EndDevice = self
 
     EndDeviceFunctions = property(getEndDeviceFunctions, setEndDeviceFunctions)
 
@@ -155,8 +154,7 @@ class EndDevice(AssetContainer):
         for x in self._EndDeviceControls:
             x.EndDevice = None
         for y in value:
-            y._EndDevice = self
-        self._EndDeviceControls = value
+            y.EndDevice = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
diff --git a/CIM15/IEC61968/Metering/EndDeviceFunction.py b/CIM15/IEC61968/Metering/EndDeviceFunction.py
index 79e5bf1..8f9dc4f 100644
--- a/CIM15/IEC61968/Metering/EndDeviceFunction.py
+++ b/CIM15/IEC61968/Metering/EndDeviceFunction.py
@@ -70,8 +70,7 @@ class EndDeviceFunction(AssetFunction):
         for x in self._Registers:
             x.EndDeviceFunction = None
         for y in value:
-            y._EndDeviceFunction = self
-        self._Registers = value
+            y.EndDeviceFunction = self
 
     Registers = property(getRegisters, setRegisters)
 
@@ -109,8 +108,7 @@ class EndDeviceFunction(AssetFunction):
         for x in self._EndDeviceEvents:
             x.EndDeviceFunction = None
         for y in value:
-            y._EndDeviceFunction = self
-        self._EndDeviceEvents = value
+            y.EndDeviceFunction = self
 
     EndDeviceEvents = property(getEndDeviceEvents, setEndDeviceEvents)
 
diff --git a/CIM15/IEC61968/Metering/EndDeviceGroup.py b/CIM15/IEC61968/Metering/EndDeviceGroup.py
index 9f3e97f..897c94e 100644
--- a/CIM15/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM15/IEC61968/Metering/EndDeviceGroup.py
@@ -62,8 +62,7 @@ class EndDeviceGroup(IdentifiedObject):
         for x in self._EndDeviceControls:
             x.EndDeviceGroup = None
         for y in value:
-            y._EndDeviceGroup = self
-        self._EndDeviceControls = value
+            y.EndDeviceGroup = self
 
     EndDeviceControls = property(getEndDeviceControls, setEndDeviceControls)
 
diff --git a/CIM15/IEC61968/Metering/IntervalReading.py b/CIM15/IEC61968/Metering/IntervalReading.py
index 9c73b23..c466600 100644
--- a/CIM15/IEC61968/Metering/IntervalReading.py
+++ b/CIM15/IEC61968/Metering/IntervalReading.py
@@ -86,8 +86,7 @@ class IntervalReading(MeasurementValue):
         for x in self._ReadingQualities:
             x.IntervalReading = None
         for y in value:
-            y._IntervalReading = self
-        self._ReadingQualities = value
+            y.IntervalReading = self
 
     ReadingQualities = property(getReadingQualities, setReadingQualities)
 
diff --git a/CIM15/IEC61968/Metering/Meter.py b/CIM15/IEC61968/Metering/Meter.py
index a7845ad..1651f43 100644
--- a/CIM15/IEC61968/Metering/Meter.py
+++ b/CIM15/IEC61968/Metering/Meter.py
@@ -74,8 +74,7 @@ class Meter(EndDevice):
         for x in self._MeterReplacementWorks:
             x.OldMeter = None
         for y in value:
-            y._OldMeter = self
-        self._MeterReplacementWorks = value
+            y.OldMeter = self
 
     MeterReplacementWorks = property(getMeterReplacementWorks, setMeterReplacementWorks)
 
@@ -96,8 +95,7 @@ class Meter(EndDevice):
         for x in self._MeterReadings:
             x.Meter = None
         for y in value:
-            y._Meter = self
-        self._MeterReadings = value
+            y.Meter = self
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
@@ -118,8 +116,7 @@ class Meter(EndDevice):
         for x in self._MeterServiceWorks:
             x.Meter = None
         for y in value:
-            y._Meter = self
-        self._MeterServiceWorks = value
+            y.Meter = self
 
     MeterServiceWorks = property(getMeterServiceWorks, setMeterServiceWorks)
 
@@ -140,8 +137,7 @@ class Meter(EndDevice):
         for x in self._VendingTransactions:
             x.Meter = None
         for y in value:
-            y._Meter = self
-        self._VendingTransactions = value
+            y.Meter = self
 
     VendingTransactions = property(getVendingTransactions, setVendingTransactions)
 
diff --git a/CIM15/IEC61968/Metering/MeterReading.py b/CIM15/IEC61968/Metering/MeterReading.py
index 8fc07d6..0923b86 100644
--- a/CIM15/IEC61968/Metering/MeterReading.py
+++ b/CIM15/IEC61968/Metering/MeterReading.py
@@ -93,8 +93,7 @@ class MeterReading(IdentifiedObject):
         for x in self._EndDeviceEvents:
             x.MeterReading = None
         for y in value:
-            y._MeterReading = self
-        self._EndDeviceEvents = value
+            y.MeterReading = self
 
     EndDeviceEvents = property(getEndDeviceEvents, setEndDeviceEvents)
 
@@ -177,8 +176,7 @@ class MeterReading(IdentifiedObject):
         for x in self._IntervalBlocks:
             x.MeterReading = None
         for y in value:
-            y._MeterReading = self
-        self._IntervalBlocks = value
+            y.MeterReading = self
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
diff --git a/CIM15/IEC61968/Metering/PendingCalculation.py b/CIM15/IEC61968/Metering/PendingCalculation.py
index cbfede5..f4e24a0 100644
--- a/CIM15/IEC61968/Metering/PendingCalculation.py
+++ b/CIM15/IEC61968/Metering/PendingCalculation.py
@@ -74,8 +74,7 @@ class PendingCalculation(Element):
         for x in self._IntervalBlocks:
             x.PendingCalculation = None
         for y in value:
-            y._PendingCalculation = self
-        self._IntervalBlocks = value
+            y.PendingCalculation = self
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
diff --git a/CIM15/IEC61968/Metering/Reading.py b/CIM15/IEC61968/Metering/Reading.py
index 708244b..33d7b2b 100644
--- a/CIM15/IEC61968/Metering/Reading.py
+++ b/CIM15/IEC61968/Metering/Reading.py
@@ -107,8 +107,7 @@ class Reading(MeasurementValue):
         for x in self._ReadingQualities:
             x.Reading = None
         for y in value:
-            y._Reading = self
-        self._ReadingQualities = value
+            y.Reading = self
 
     ReadingQualities = property(getReadingQualities, setReadingQualities)
 
diff --git a/CIM15/IEC61968/Metering/ReadingType.py b/CIM15/IEC61968/Metering/ReadingType.py
index 8fc3b36..1912326 100644
--- a/CIM15/IEC61968/Metering/ReadingType.py
+++ b/CIM15/IEC61968/Metering/ReadingType.py
@@ -97,8 +97,7 @@ class ReadingType(IdentifiedObject):
         for x in self._IntervalBlocks:
             x.ReadingType = None
         for y in value:
-            y._ReadingType = self
-        self._IntervalBlocks = value
+            y.ReadingType = self
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
@@ -122,8 +121,7 @@ class ReadingType(IdentifiedObject):
         for x in self._Readings:
             x.ReadingType = None
         for y in value:
-            y._ReadingType = self
-        self._Readings = value
+            y.ReadingType = self
 
     Readings = property(getReadings, setReadings)
 
diff --git a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
index 351158d..d51494d 100644
--- a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -171,8 +171,7 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for x in self._EndDevices:
             x.ServiceDeliveryPoint = None
         for y in value:
-            y._ServiceDeliveryPoint = self
-        self._EndDevices = value
+            y.ServiceDeliveryPoint = self
 
     EndDevices = property(getEndDevices, setEndDevices)
 
@@ -193,8 +192,7 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for x in self._MeterReadings:
             x.ServiceDeliveryPoint = None
         for y in value:
-            y._ServiceDeliveryPoint = self
-        self._MeterReadings = value
+            y.ServiceDeliveryPoint = self
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
diff --git a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
index 9a73443..3cb25e5 100644
--- a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -78,8 +78,7 @@ class AuxiliaryAccount(Document):
         for x in self._PaymentTransactions:
             x.AuxiliaryAccount = None
         for y in value:
-            y._AuxiliaryAccount = self
-        self._PaymentTransactions = value
+            y.AuxiliaryAccount = self
 
     PaymentTransactions = property(getPaymentTransactions, setPaymentTransactions)
 
diff --git a/CIM15/IEC61968/PaymentMetering/AuxiliaryAgreement.py b/CIM15/IEC61968/PaymentMetering/AuxiliaryAgreement.py
index ca85aa4..3d23055 100644
--- a/CIM15/IEC61968/PaymentMetering/AuxiliaryAgreement.py
+++ b/CIM15/IEC61968/PaymentMetering/AuxiliaryAgreement.py
@@ -111,8 +111,7 @@ class AuxiliaryAgreement(Agreement):
         for x in self._AuxiliaryAccounts:
             x.AuxiliaryAgreement = None
         for y in value:
-            y._AuxiliaryAgreement = self
-        self._AuxiliaryAccounts = value
+            y.AuxiliaryAgreement = self
 
     AuxiliaryAccounts = property(getAuxiliaryAccounts, setAuxiliaryAccounts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Cashier.py b/CIM15/IEC61968/PaymentMetering/Cashier.py
index 42a470a..82bdf1a 100644
--- a/CIM15/IEC61968/PaymentMetering/Cashier.py
+++ b/CIM15/IEC61968/PaymentMetering/Cashier.py
@@ -56,8 +56,7 @@ class Cashier(IdentifiedObject):
         for x in self._CashierShifts:
             x.Cashier = None
         for y in value:
-            y._Cashier = self
-        self._CashierShifts = value
+            y.Cashier = self
 
     CashierShifts = property(getCashierShifts, setCashierShifts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/CashierShift.py b/CIM15/IEC61968/PaymentMetering/CashierShift.py
index ad179e9..c8a4f04 100644
--- a/CIM15/IEC61968/PaymentMetering/CashierShift.py
+++ b/CIM15/IEC61968/PaymentMetering/CashierShift.py
@@ -65,8 +65,7 @@ class CashierShift(Shift):
         for x in self._Transactions:
             x.CashierShift = None
         for y in value:
-            y._CashierShift = self
-        self._Transactions = value
+            y.CashierShift = self
 
     Transactions = property(getTransactions, setTransactions)
 
@@ -104,8 +103,7 @@ class CashierShift(Shift):
         for x in self._Receipts:
             x.CashierShift = None
         for y in value:
-            y._CashierShift = self
-        self._Receipts = value
+            y.CashierShift = self
 
     Receipts = property(getReceipts, setReceipts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Charge.py b/CIM15/IEC61968/PaymentMetering/Charge.py
index f45ef80..0e06a1b 100644
--- a/CIM15/IEC61968/PaymentMetering/Charge.py
+++ b/CIM15/IEC61968/PaymentMetering/Charge.py
@@ -161,8 +161,7 @@ class Charge(IdentifiedObject):
         for x in self._ChildCharges:
             x.ParentCharge = None
         for y in value:
-            y._ParentCharge = self
-        self._ChildCharges = value
+            y.ParentCharge = self
 
     ChildCharges = property(getChildCharges, setChildCharges)
 
diff --git a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
index 1614247..676cca5 100644
--- a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
@@ -111,8 +111,7 @@ class MerchantAccount(Document):
         for x in self._VendorShifts:
             x.MerchantAccount = None
         for y in value:
-            y._MerchantAccount = self
-        self._VendorShifts = value
+            y.MerchantAccount = self
 
     VendorShifts = property(getVendorShifts, setVendorShifts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/MerchantAgreement.py b/CIM15/IEC61968/PaymentMetering/MerchantAgreement.py
index ad7fb62..1f2ec76 100644
--- a/CIM15/IEC61968/PaymentMetering/MerchantAgreement.py
+++ b/CIM15/IEC61968/PaymentMetering/MerchantAgreement.py
@@ -50,8 +50,7 @@ class MerchantAgreement(Agreement):
         for x in self._MerchantAccounts:
             x.MerchantAgreement = None
         for y in value:
-            y._MerchantAgreement = self
-        self._MerchantAccounts = value
+            y.MerchantAgreement = self
 
     MerchantAccounts = property(getMerchantAccounts, setMerchantAccounts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/PointOfSale.py b/CIM15/IEC61968/PaymentMetering/PointOfSale.py
index 38eb82c..7b605eb 100644
--- a/CIM15/IEC61968/PaymentMetering/PointOfSale.py
+++ b/CIM15/IEC61968/PaymentMetering/PointOfSale.py
@@ -54,8 +54,7 @@ class PointOfSale(IdentifiedObject):
         for x in self._CashierShifts:
             x.PointOfSale = None
         for y in value:
-            y._PointOfSale = self
-        self._CashierShifts = value
+            y.PointOfSale = self
 
     CashierShifts = property(getCashierShifts, setCashierShifts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Receipt.py b/CIM15/IEC61968/PaymentMetering/Receipt.py
index ecae377..d40c5ee 100644
--- a/CIM15/IEC61968/PaymentMetering/Receipt.py
+++ b/CIM15/IEC61968/PaymentMetering/Receipt.py
@@ -106,8 +106,7 @@ class Receipt(IdentifiedObject):
         for x in self._Tenders:
             x.Receipt = None
         for y in value:
-            y._Receipt = self
-        self._Tenders = value
+            y.Receipt = self
 
     Tenders = property(getTenders, setTenders)
 
@@ -128,8 +127,7 @@ class Receipt(IdentifiedObject):
         for x in self._Transactions:
             x.Receipt = None
         for y in value:
-            y._Receipt = self
-        self._Transactions = value
+            y.Receipt = self
 
     Transactions = property(getTransactions, setTransactions)
 
diff --git a/CIM15/IEC61968/PaymentMetering/ServiceSupplier.py b/CIM15/IEC61968/PaymentMetering/ServiceSupplier.py
index 0ccd5c7..5220f37 100644
--- a/CIM15/IEC61968/PaymentMetering/ServiceSupplier.py
+++ b/CIM15/IEC61968/PaymentMetering/ServiceSupplier.py
@@ -66,8 +66,7 @@ class ServiceSupplier(Organisation):
         for x in self._BankAccounts:
             x.ServiceSupplier = None
         for y in value:
-            y._ServiceSupplier = self
-        self._BankAccounts = value
+            y.ServiceSupplier = self
 
     BankAccounts = property(getBankAccounts, setBankAccounts)
 
@@ -88,8 +87,7 @@ class ServiceSupplier(Organisation):
         for x in self._ServiceDeliveryPoints:
             x.ServiceSupplier = None
         for y in value:
-            y._ServiceSupplier = self
-        self._ServiceDeliveryPoints = value
+            y.ServiceSupplier = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
@@ -110,8 +108,7 @@ class ServiceSupplier(Organisation):
         for x in self._CustomerAgreements:
             x.ServiceSupplier = None
         for y in value:
-            y._ServiceSupplier = self
-        self._CustomerAgreements = value
+            y.ServiceSupplier = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Transaction.py b/CIM15/IEC61968/PaymentMetering/Transaction.py
index 81fc405..f6925df 100644
--- a/CIM15/IEC61968/PaymentMetering/Transaction.py
+++ b/CIM15/IEC61968/PaymentMetering/Transaction.py
@@ -129,8 +129,7 @@ class Transaction(IdentifiedObject):
         for x in self._UserAttributes:
             x.Transaction = None
         for y in value:
-            y._Transaction = self
-        self._UserAttributes = value
+            y.Transaction = self
 
     UserAttributes = property(getUserAttributes, setUserAttributes)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Vendor.py b/CIM15/IEC61968/PaymentMetering/Vendor.py
index e8d58ee..1fb5e59 100644
--- a/CIM15/IEC61968/PaymentMetering/Vendor.py
+++ b/CIM15/IEC61968/PaymentMetering/Vendor.py
@@ -50,8 +50,7 @@ class Vendor(IdentifiedObject):
         for x in self._VendorShifts:
             x.Vendor = None
         for y in value:
-            y._Vendor = self
-        self._VendorShifts = value
+            y.Vendor = self
 
     VendorShifts = property(getVendorShifts, setVendorShifts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/VendorShift.py b/CIM15/IEC61968/PaymentMetering/VendorShift.py
index 00587ee..27bd361 100644
--- a/CIM15/IEC61968/PaymentMetering/VendorShift.py
+++ b/CIM15/IEC61968/PaymentMetering/VendorShift.py
@@ -86,8 +86,7 @@ class VendorShift(Shift):
         for x in self._Receipts:
             x.VendorShift = None
         for y in value:
-            y._VendorShift = self
-        self._Receipts = value
+            y.VendorShift = self
 
     Receipts = property(getReceipts, setReceipts)
 
@@ -124,8 +123,7 @@ class VendorShift(Shift):
         for x in self._Transactions:
             x.VendorShift = None
         for y in value:
-            y._VendorShift = self
-        self._Transactions = value
+            y.VendorShift = self
 
     Transactions = property(getTransactions, setTransactions)
 
diff --git a/CIM15/IEC61968/Work/Work.py b/CIM15/IEC61968/Work/Work.py
index d58fd42..9c0ea17 100644
--- a/CIM15/IEC61968/Work/Work.py
+++ b/CIM15/IEC61968/Work/Work.py
@@ -97,8 +97,7 @@ class Work(Document):
         for x in self._Designs:
             x.Work = None
         for y in value:
-            y._Work = self
-        self._Designs = value
+            y.Work = self
 
     Designs = property(getDesigns, setDesigns)
 
@@ -177,8 +176,7 @@ class Work(Document):
         for x in self._WorkFlowSteps:
             x.Work = None
         for y in value:
-            y._Work = self
-        self._WorkFlowSteps = value
+            y.Work = self
 
     WorkFlowSteps = property(getWorkFlowSteps, setWorkFlowSteps)
 
@@ -198,8 +196,7 @@ class Work(Document):
         for x in self._WorkTasks:
             x.Work = None
         for y in value:
-            y._Work = self
-        self._WorkTasks = value
+            y.Work = self
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
diff --git a/CIM15/IEC61970/Contingency/Contingency.py b/CIM15/IEC61970/Contingency/Contingency.py
index 44a2526..9294592 100644
--- a/CIM15/IEC61970/Contingency/Contingency.py
+++ b/CIM15/IEC61970/Contingency/Contingency.py
@@ -54,8 +54,7 @@ class Contingency(IdentifiedObject):
         for x in self._ContingencyElement:
             x.Contingency = None
         for y in value:
-            y._Contingency = self
-        self._ContingencyElement = value
+            y.Contingency = self
 
     ContingencyElement = property(getContingencyElement, setContingencyElement)
 
diff --git a/CIM15/IEC61970/ControlArea/ControlArea.py b/CIM15/IEC61970/ControlArea/ControlArea.py
index d75dd58..fb25ace 100644
--- a/CIM15/IEC61970/ControlArea/ControlArea.py
+++ b/CIM15/IEC61970/ControlArea/ControlArea.py
@@ -70,8 +70,7 @@ class ControlArea(PowerSystemResource):
         for x in self._ControlAreaGeneratingUnit:
             x.ControlArea = None
         for y in value:
-            y._ControlArea = self
-        self._ControlAreaGeneratingUnit = value
+            y.ControlArea = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
@@ -92,8 +91,7 @@ class ControlArea(PowerSystemResource):
         for x in self._TieFlow:
             x.ControlArea = None
         for y in value:
-            y._ControlArea = self
-        self._TieFlow = value
+            y.ControlArea = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
diff --git a/CIM15/IEC61970/ControlArea/ControlAreaGeneratingUnit.py b/CIM15/IEC61970/ControlArea/ControlAreaGeneratingUnit.py
index e27cbb8..37e22ab 100644
--- a/CIM15/IEC61970/ControlArea/ControlAreaGeneratingUnit.py
+++ b/CIM15/IEC61970/ControlArea/ControlAreaGeneratingUnit.py
@@ -58,8 +58,7 @@ class ControlAreaGeneratingUnit(Element):
         for x in self._AltGeneratingUnitMeas:
             x.ControlAreaGeneratingUnit = None
         for y in value:
-            y._ControlAreaGeneratingUnit = self
-        self._AltGeneratingUnitMeas = value
+            y.ControlAreaGeneratingUnit = self
 
     AltGeneratingUnitMeas = property(getAltGeneratingUnitMeas, setAltGeneratingUnitMeas)
 
diff --git a/CIM15/IEC61970/ControlArea/TieFlow.py b/CIM15/IEC61970/ControlArea/TieFlow.py
index 9ae2278..6dfd9f8 100644
--- a/CIM15/IEC61970/ControlArea/TieFlow.py
+++ b/CIM15/IEC61970/ControlArea/TieFlow.py
@@ -62,8 +62,7 @@ class TieFlow(Element):
         for x in self._AltTieMeas:
             x.TieFlow = None
         for y in value:
-            y._TieFlow = self
-        self._AltTieMeas = value
+            y.TieFlow = self
 
     AltTieMeas = property(getAltTieMeas, setAltTieMeas)
 
diff --git a/CIM15/IEC61970/Core/BaseVoltage.py b/CIM15/IEC61970/Core/BaseVoltage.py
index 3b877ee..aeab325 100644
--- a/CIM15/IEC61970/Core/BaseVoltage.py
+++ b/CIM15/IEC61970/Core/BaseVoltage.py
@@ -69,8 +69,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._TopologicalNode:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._TopologicalNode = value
+            y.BaseVoltage = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
@@ -91,8 +90,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._VoltageLevel:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._VoltageLevel = value
+            y.BaseVoltage = self
 
     VoltageLevel = property(getVoltageLevel, setVoltageLevel)
 
@@ -113,8 +111,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._ConductingEquipment:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._ConductingEquipment = value
+            y.BaseVoltage = self
 
     ConductingEquipment = property(getConductingEquipment, setConductingEquipment)
 
@@ -133,8 +130,7 @@ class BaseVoltage(IdentifiedObject):
         for x in self._TransformerEnd:
             x.BaseVoltage = None
         for y in value:
-            y._BaseVoltage = self
-        self._TransformerEnd = value
+            y.BaseVoltage = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/IEC61970/Core/ConductingEquipment.py b/CIM15/IEC61970/Core/ConductingEquipment.py
index 1256cec..da48d8d 100644
--- a/CIM15/IEC61970/Core/ConductingEquipment.py
+++ b/CIM15/IEC61970/Core/ConductingEquipment.py
@@ -87,8 +87,7 @@ class ConductingEquipment(Equipment):
         for x in self._ClearanceTags:
             x.ConductingEquipment = None
         for y in value:
-            y._ConductingEquipment = self
-        self._ClearanceTags = value
+            y.ConductingEquipment = self
 
     ClearanceTags = property(getClearanceTags, setClearanceTags)
 
@@ -137,8 +136,7 @@ class ConductingEquipment(Equipment):
         for x in self._Terminals:
             x.ConductingEquipment = None
         for y in value:
-            y._ConductingEquipment = self
-        self._Terminals = value
+            y.ConductingEquipment = self
 
     Terminals = property(getTerminals, setTerminals)
 
@@ -158,8 +156,7 @@ class ConductingEquipment(Equipment):
         for x in self._OutageStepRoles:
             x.ConductingEquipment = None
         for y in value:
-            y._ConductingEquipment = self
-        self._OutageStepRoles = value
+            y.ConductingEquipment = self
 
     OutageStepRoles = property(getOutageStepRoles, setOutageStepRoles)
 
diff --git a/CIM15/IEC61970/Core/ConnectivityNode.py b/CIM15/IEC61970/Core/ConnectivityNode.py
index 05c9a3b..0e289f0 100644
--- a/CIM15/IEC61970/Core/ConnectivityNode.py
+++ b/CIM15/IEC61970/Core/ConnectivityNode.py
@@ -92,8 +92,7 @@ class ConnectivityNode(IdentifiedObject):
         for x in self._Terminals:
             x.ConnectivityNode = None
         for y in value:
-            y._ConnectivityNode = self
-        self._Terminals = value
+            y.ConnectivityNode = self
 
     Terminals = property(getTerminals, setTerminals)
 
diff --git a/CIM15/IEC61970/Core/ConnectivityNodeContainer.py b/CIM15/IEC61970/Core/ConnectivityNodeContainer.py
index 7f0b7bd..0c9176d 100644
--- a/CIM15/IEC61970/Core/ConnectivityNodeContainer.py
+++ b/CIM15/IEC61970/Core/ConnectivityNodeContainer.py
@@ -54,8 +54,7 @@ class ConnectivityNodeContainer(PowerSystemResource):
         for x in self._TopologicalNode:
             x.ConnectivityNodeContainer = None
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._TopologicalNode = value
+            y.ConnectivityNodeContainer = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
@@ -76,8 +75,7 @@ class ConnectivityNodeContainer(PowerSystemResource):
         for x in self._ConnectivityNodes:
             x.ConnectivityNodeContainer = None
         for y in value:
-            y._ConnectivityNodeContainer = self
-        self._ConnectivityNodes = value
+            y.ConnectivityNodeContainer = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
diff --git a/CIM15/IEC61970/Core/Curve.py b/CIM15/IEC61970/Core/Curve.py
index 4439804..a7db716 100644
--- a/CIM15/IEC61970/Core/Curve.py
+++ b/CIM15/IEC61970/Core/Curve.py
@@ -86,8 +86,7 @@ class Curve(IdentifiedObject):
         for x in self._CurveDatas:
             x.Curve = None
         for y in value:
-            y._Curve = self
-        self._CurveDatas = value
+            y.Curve = self
 
     CurveDatas = property(getCurveDatas, setCurveDatas)
 
diff --git a/CIM15/IEC61970/Core/Equipment.py b/CIM15/IEC61970/Core/Equipment.py
index 0f3597f..ed39e13 100644
--- a/CIM15/IEC61970/Core/Equipment.py
+++ b/CIM15/IEC61970/Core/Equipment.py
@@ -71,8 +71,7 @@ class Equipment(PowerSystemResource):
         for x in self._ContingencyEquipment:
             x.Equipment = None
         for y in value:
-            y._Equipment = self
-        self._ContingencyEquipment = value
+            y.Equipment = self
 
     ContingencyEquipment = property(getContingencyEquipment, setContingencyEquipment)
 
@@ -137,8 +136,7 @@ class Equipment(PowerSystemResource):
         for x in self._OperationalLimitSet:
             x.Equipment = None
         for y in value:
-            y._Equipment = self
-        self._OperationalLimitSet = value
+            y.Equipment = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
diff --git a/CIM15/IEC61970/Core/EquipmentContainer.py b/CIM15/IEC61970/Core/EquipmentContainer.py
index 33c2ff4..ba6e188 100644
--- a/CIM15/IEC61970/Core/EquipmentContainer.py
+++ b/CIM15/IEC61970/Core/EquipmentContainer.py
@@ -50,8 +50,7 @@ class EquipmentContainer(ConnectivityNodeContainer):
         for x in self._Equipments:
             x.EquipmentContainer = None
         for y in value:
-            y._EquipmentContainer = self
-        self._Equipments = value
+            y.EquipmentContainer = self
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM15/IEC61970/Core/GeographicalRegion.py b/CIM15/IEC61970/Core/GeographicalRegion.py
index f5a1253..6a816e2 100644
--- a/CIM15/IEC61970/Core/GeographicalRegion.py
+++ b/CIM15/IEC61970/Core/GeographicalRegion.py
@@ -50,8 +50,7 @@ class GeographicalRegion(IdentifiedObject):
         for x in self._Regions:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Regions = value
+            y.Region = self
 
     Regions = property(getRegions, setRegions)
 
diff --git a/CIM15/IEC61970/Core/IdentifiedObject.py b/CIM15/IEC61970/Core/IdentifiedObject.py
index 5e18244..c3ba4ae 100644
--- a/CIM15/IEC61970/Core/IdentifiedObject.py
+++ b/CIM15/IEC61970/Core/IdentifiedObject.py
@@ -70,8 +70,7 @@ class IdentifiedObject(Element):
         for x in self._Names:
             x.IdentifiedObject = None
         for y in value:
-            y._IdentifiedObject = self
-        self._Names = value
+            y.IdentifiedObject = self
 
     Names = property(getNames, setNames)
 
@@ -92,8 +91,7 @@ class IdentifiedObject(Element):
         for x in self._DiagramObjects:
             x.IdentifiedObject = None
         for y in value:
-            y._IdentifiedObject = self
-        self._DiagramObjects = value
+            y.IdentifiedObject = self
 
     DiagramObjects = property(getDiagramObjects, setDiagramObjects)
 
diff --git a/CIM15/IEC61970/Core/IrregularIntervalSchedule.py b/CIM15/IEC61970/Core/IrregularIntervalSchedule.py
index 4a5749d..298f639 100644
--- a/CIM15/IEC61970/Core/IrregularIntervalSchedule.py
+++ b/CIM15/IEC61970/Core/IrregularIntervalSchedule.py
@@ -50,8 +50,7 @@ class IrregularIntervalSchedule(BasicIntervalSchedule):
         for x in self._TimePoints:
             x.IntervalSchedule = None
         for y in value:
-            y._IntervalSchedule = self
-        self._TimePoints = value
+            y.IntervalSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM15/IEC61970/Core/NameType.py b/CIM15/IEC61970/Core/NameType.py
index e0408f1..6ca0621 100644
--- a/CIM15/IEC61970/Core/NameType.py
+++ b/CIM15/IEC61970/Core/NameType.py
@@ -62,8 +62,7 @@ class NameType(Element):
         for x in self._Names:
             x.NameType = None
         for y in value:
-            y._NameType = self
-        self._Names = value
+            y.NameType = self
 
     Names = property(getNames, setNames)
 
diff --git a/CIM15/IEC61970/Core/NameTypeAuthority.py b/CIM15/IEC61970/Core/NameTypeAuthority.py
index 82d5768..88ceffb 100644
--- a/CIM15/IEC61970/Core/NameTypeAuthority.py
+++ b/CIM15/IEC61970/Core/NameTypeAuthority.py
@@ -58,8 +58,7 @@ class NameTypeAuthority(Element):
         for x in self._NameTypes:
             x.NameTypeAuthority = None
         for y in value:
-            y._NameTypeAuthority = self
-        self._NameTypes = value
+            y.NameTypeAuthority = self
 
     NameTypes = property(getNameTypes, setNameTypes)
 
diff --git a/CIM15/IEC61970/Core/OperatingParticipant.py b/CIM15/IEC61970/Core/OperatingParticipant.py
index b445e28..0b2d908 100644
--- a/CIM15/IEC61970/Core/OperatingParticipant.py
+++ b/CIM15/IEC61970/Core/OperatingParticipant.py
@@ -50,8 +50,7 @@ class OperatingParticipant(IdentifiedObject):
         for x in self._OperatingShare:
             x.OperatingParticipant = None
         for y in value:
-            y._OperatingParticipant = self
-        self._OperatingShare = value
+            y.OperatingParticipant = self
 
     OperatingShare = property(getOperatingShare, setOperatingShare)
 
diff --git a/CIM15/IEC61970/Core/PSRType.py b/CIM15/IEC61970/Core/PSRType.py
index 519ba76..de3859d 100644
--- a/CIM15/IEC61970/Core/PSRType.py
+++ b/CIM15/IEC61970/Core/PSRType.py
@@ -50,8 +50,7 @@ class PSRType(IdentifiedObject):
         for x in self._PowerSystemResources:
             x.PSRType = None
         for y in value:
-            y._PSRType = self
-        self._PowerSystemResources = value
+            y.PSRType = self
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM15/IEC61970/Core/PowerSystemResource.py b/CIM15/IEC61970/Core/PowerSystemResource.py
index 3982ad5..3a877f3 100644
--- a/CIM15/IEC61970/Core/PowerSystemResource.py
+++ b/CIM15/IEC61970/Core/PowerSystemResource.py
@@ -105,8 +105,7 @@ class PowerSystemResource(IdentifiedObject):
         for x in self._ChangeItems:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._ChangeItems = value
+            y.PowerSystemResource = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -153,8 +152,7 @@ class PowerSystemResource(IdentifiedObject):
         for x in self._SafetyDocuments:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._SafetyDocuments = value
+            y.PowerSystemResource = self
 
     SafetyDocuments = property(getSafetyDocuments, setSafetyDocuments)
 
@@ -175,8 +173,7 @@ class PowerSystemResource(IdentifiedObject):
         for x in self._OperatingShare:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._OperatingShare = value
+            y.PowerSystemResource = self
 
     OperatingShare = property(getOperatingShare, setOperatingShare)
 
@@ -196,8 +193,7 @@ class PowerSystemResource(IdentifiedObject):
         for x in self._DocumentRoles:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._DocumentRoles = value
+            y.PowerSystemResource = self
 
     DocumentRoles = property(getDocumentRoles, setDocumentRoles)
 
@@ -245,8 +241,7 @@ class PowerSystemResource(IdentifiedObject):
         for x in self._Measurements:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._Measurements = value
+            y.PowerSystemResource = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -339,8 +334,7 @@ class PowerSystemResource(IdentifiedObject):
         for x in self._ErpOrganisationRoles:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._ErpOrganisationRoles = value
+            y.PowerSystemResource = self
 
     ErpOrganisationRoles = property(getErpOrganisationRoles, setErpOrganisationRoles)
 
@@ -378,8 +372,7 @@ class PowerSystemResource(IdentifiedObject):
         for x in self._PSREvent:
             x.PowerSystemResource = None
         for y in value:
-            y._PowerSystemResource = self
-        self._PSREvent = value
+            y.PowerSystemResource = self
 
     PSREvent = property(getPSREvent, setPSREvent)
 
diff --git a/CIM15/IEC61970/Core/RegularIntervalSchedule.py b/CIM15/IEC61970/Core/RegularIntervalSchedule.py
index ade581b..c8d5ce6 100644
--- a/CIM15/IEC61970/Core/RegularIntervalSchedule.py
+++ b/CIM15/IEC61970/Core/RegularIntervalSchedule.py
@@ -58,8 +58,7 @@ class RegularIntervalSchedule(BasicIntervalSchedule):
         for x in self._TimePoints:
             x.IntervalSchedule = None
         for y in value:
-            y._IntervalSchedule = self
-        self._TimePoints = value
+            y.IntervalSchedule = self
 
     TimePoints = property(getTimePoints, setTimePoints)
 
diff --git a/CIM15/IEC61970/Core/ReportingGroup.py b/CIM15/IEC61970/Core/ReportingGroup.py
index 2271061..1d986da 100644
--- a/CIM15/IEC61970/Core/ReportingGroup.py
+++ b/CIM15/IEC61970/Core/ReportingGroup.py
@@ -62,8 +62,7 @@ class ReportingGroup(IdentifiedObject):
         for x in self._BusNameMarker:
             x.ReportingGroup = None
         for y in value:
-            y._ReportingGroup = self
-        self._BusNameMarker = value
+            y.ReportingGroup = self
 
     BusNameMarker = property(getBusNameMarker, setBusNameMarker)
 
@@ -101,8 +100,7 @@ class ReportingGroup(IdentifiedObject):
         for x in self._TopologicalNode:
             x.ReportingGroup = None
         for y in value:
-            y._ReportingGroup = self
-        self._TopologicalNode = value
+            y.ReportingGroup = self
 
     TopologicalNode = property(getTopologicalNode, setTopologicalNode)
 
diff --git a/CIM15/IEC61970/Core/ReportingSuperGroup.py b/CIM15/IEC61970/Core/ReportingSuperGroup.py
index 6c99759..ad0e70b 100644
--- a/CIM15/IEC61970/Core/ReportingSuperGroup.py
+++ b/CIM15/IEC61970/Core/ReportingSuperGroup.py
@@ -50,8 +50,7 @@ class ReportingSuperGroup(IdentifiedObject):
         for x in self._ReportingGroup:
             x.ReportingSuperGroup = None
         for y in value:
-            y._ReportingSuperGroup = self
-        self._ReportingGroup = value
+            y.ReportingSuperGroup = self
 
     ReportingGroup = property(getReportingGroup, setReportingGroup)
 
diff --git a/CIM15/IEC61970/Core/SubGeographicalRegion.py b/CIM15/IEC61970/Core/SubGeographicalRegion.py
index c1e20c3..5aa7c08 100644
--- a/CIM15/IEC61970/Core/SubGeographicalRegion.py
+++ b/CIM15/IEC61970/Core/SubGeographicalRegion.py
@@ -58,8 +58,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Substations:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Substations = value
+            y.Region = self
 
     Substations = property(getSubstations, setSubstations)
 
@@ -80,8 +79,7 @@ class SubGeographicalRegion(IdentifiedObject):
         for x in self._Lines:
             x.Region = None
         for y in value:
-            y._Region = self
-        self._Lines = value
+            y.Region = self
 
     Lines = property(getLines, setLines)
 
diff --git a/CIM15/IEC61970/Core/Substation.py b/CIM15/IEC61970/Core/Substation.py
index 5577393..802c85e 100644
--- a/CIM15/IEC61970/Core/Substation.py
+++ b/CIM15/IEC61970/Core/Substation.py
@@ -58,8 +58,7 @@ class Substation(EquipmentContainer):
         for x in self._Bays:
             x.Substation = None
         for y in value:
-            y._Substation = self
-        self._Bays = value
+            y.Substation = self
 
     Bays = property(getBays, setBays)
 
@@ -80,8 +79,7 @@ class Substation(EquipmentContainer):
         for x in self._VoltageLevels:
             x.Substation = None
         for y in value:
-            y._Substation = self
-        self._VoltageLevels = value
+            y.Substation = self
 
     VoltageLevels = property(getVoltageLevels, setVoltageLevels)
 
diff --git a/CIM15/IEC61970/Core/Terminal.py b/CIM15/IEC61970/Core/Terminal.py
index d51d55e..9ed3245 100644
--- a/CIM15/IEC61970/Core/Terminal.py
+++ b/CIM15/IEC61970/Core/Terminal.py
@@ -133,8 +133,7 @@ class Terminal(IdentifiedObject):
         for x in self._TieFlow:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._TieFlow = value
+            y.Terminal = self
 
     TieFlow = property(getTieFlow, setTieFlow)
 
@@ -155,8 +154,7 @@ class Terminal(IdentifiedObject):
         for x in self._HasSecond_MutualCoupling:
             x.Second_Terminal = None
         for y in value:
-            y._Second_Terminal = self
-        self._HasSecond_MutualCoupling = value
+            y.Second_Terminal = self
 
     HasSecond_MutualCoupling = property(getHasSecond_MutualCoupling, setHasSecond_MutualCoupling)
 
@@ -177,8 +175,7 @@ class Terminal(IdentifiedObject):
         for x in self._OperationalLimitSet:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._OperationalLimitSet = value
+            y.Terminal = self
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
@@ -199,8 +196,7 @@ class Terminal(IdentifiedObject):
         for x in self._Measurements:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._Measurements = value
+            y.Terminal = self
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -238,8 +234,7 @@ class Terminal(IdentifiedObject):
         for x in self._RegulatingControl:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._RegulatingControl = value
+            y.Terminal = self
 
     RegulatingControl = property(getRegulatingControl, setRegulatingControl)
 
@@ -260,8 +255,7 @@ class Terminal(IdentifiedObject):
         for x in self._HasFirst_MutualCoupling:
             x.First_Terminal = None
         for y in value:
-            y._First_Terminal = self
-        self._HasFirst_MutualCoupling = value
+            y.First_Terminal = self
 
     HasFirst_MutualCoupling = property(getHasFirst_MutualCoupling, setHasFirst_MutualCoupling)
 
@@ -281,8 +275,7 @@ class Terminal(IdentifiedObject):
         for x in self._AuxiliaryEquipment:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._AuxiliaryEquipment = value
+            y.Terminal = self
 
     AuxiliaryEquipment = property(getAuxiliaryEquipment, setAuxiliaryEquipment)
 
@@ -303,8 +296,7 @@ class Terminal(IdentifiedObject):
         for x in self._TransformerEnd:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._TransformerEnd = value
+            y.Terminal = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
@@ -342,8 +334,7 @@ class Terminal(IdentifiedObject):
         for x in self._BranchGroupTerminal:
             x.Terminal = None
         for y in value:
-            y._Terminal = self
-        self._BranchGroupTerminal = value
+            y.Terminal = self
 
     BranchGroupTerminal = property(getBranchGroupTerminal, setBranchGroupTerminal)
 
diff --git a/CIM15/IEC61970/Core/VoltageLevel.py b/CIM15/IEC61970/Core/VoltageLevel.py
index 7570aad..4ac6a46 100644
--- a/CIM15/IEC61970/Core/VoltageLevel.py
+++ b/CIM15/IEC61970/Core/VoltageLevel.py
@@ -66,8 +66,7 @@ class VoltageLevel(EquipmentContainer):
         for x in self._Bays:
             x.VoltageLevel = None
         for y in value:
-            y._VoltageLevel = self
-        self._Bays = value
+            y.VoltageLevel = self
 
     Bays = property(getBays, setBays)
 
diff --git a/CIM15/IEC61970/Equivalents/EquivalentNetwork.py b/CIM15/IEC61970/Equivalents/EquivalentNetwork.py
index 7aa0c22..17486f3 100644
--- a/CIM15/IEC61970/Equivalents/EquivalentNetwork.py
+++ b/CIM15/IEC61970/Equivalents/EquivalentNetwork.py
@@ -50,8 +50,7 @@ class EquivalentNetwork(ConnectivityNodeContainer):
         for x in self._EquivalentEquipments:
             x.EquivalentNetwork = None
         for y in value:
-            y._EquivalentNetwork = self
-        self._EquivalentEquipments = value
+            y.EquivalentNetwork = self
 
     EquivalentEquipments = property(getEquivalentEquipments, setEquivalentEquipments)
 
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py b/CIM15/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py
index 0767f47..e1a7bed 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/HeatRecoveryBoiler.py
@@ -54,8 +54,7 @@ class HeatRecoveryBoiler(FossilSteamSupply):
         for x in self._CombustionTurbines:
             x.HeatRecoveryBoiler = None
         for y in value:
-            y._HeatRecoveryBoiler = self
-        self._CombustionTurbines = value
+            y.HeatRecoveryBoiler = self
 
     CombustionTurbines = property(getCombustionTurbines, setCombustionTurbines)
 
diff --git a/CIM15/IEC61970/Generation/Production/CogenerationPlant.py b/CIM15/IEC61970/Generation/Production/CogenerationPlant.py
index e3308c7..253bb0c 100644
--- a/CIM15/IEC61970/Generation/Production/CogenerationPlant.py
+++ b/CIM15/IEC61970/Generation/Production/CogenerationPlant.py
@@ -90,8 +90,7 @@ class CogenerationPlant(PowerSystemResource):
         for x in self._ThermalGeneratingUnits:
             x.CogenerationPlant = None
         for y in value:
-            y._CogenerationPlant = self
-        self._ThermalGeneratingUnits = value
+            y.CogenerationPlant = self
 
     ThermalGeneratingUnits = property(getThermalGeneratingUnits, setThermalGeneratingUnits)
 
diff --git a/CIM15/IEC61970/Generation/Production/CombinedCyclePlant.py b/CIM15/IEC61970/Generation/Production/CombinedCyclePlant.py
index 503ab04..204357e 100644
--- a/CIM15/IEC61970/Generation/Production/CombinedCyclePlant.py
+++ b/CIM15/IEC61970/Generation/Production/CombinedCyclePlant.py
@@ -54,8 +54,7 @@ class CombinedCyclePlant(PowerSystemResource):
         for x in self._ThermalGeneratingUnits:
             x.CombinedCyclePlant = None
         for y in value:
-            y._CombinedCyclePlant = self
-        self._ThermalGeneratingUnits = value
+            y.CombinedCyclePlant = self
 
     ThermalGeneratingUnits = property(getThermalGeneratingUnits, setThermalGeneratingUnits)
 
diff --git a/CIM15/IEC61970/Generation/Production/FossilFuel.py b/CIM15/IEC61970/Generation/Production/FossilFuel.py
index a16607a..3e4dc6f 100644
--- a/CIM15/IEC61970/Generation/Production/FossilFuel.py
+++ b/CIM15/IEC61970/Generation/Production/FossilFuel.py
@@ -111,8 +111,7 @@ class FossilFuel(IdentifiedObject):
         for x in self._FuelAllocationSchedules:
             x.FossilFuel = None
         for y in value:
-            y._FossilFuel = self
-        self._FuelAllocationSchedules = value
+            y.FossilFuel = self
 
     FuelAllocationSchedules = property(getFuelAllocationSchedules, setFuelAllocationSchedules)
 
diff --git a/CIM15/IEC61970/Generation/Production/GeneratingUnit.py b/CIM15/IEC61970/Generation/Production/GeneratingUnit.py
index ab50e15..d5111b9 100644
--- a/CIM15/IEC61970/Generation/Production/GeneratingUnit.py
+++ b/CIM15/IEC61970/Generation/Production/GeneratingUnit.py
@@ -238,8 +238,7 @@ class GeneratingUnit(Equipment):
         for x in self._ControlAreaGeneratingUnit:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._ControlAreaGeneratingUnit = value
+            y.GeneratingUnit = self
 
     ControlAreaGeneratingUnit = property(getControlAreaGeneratingUnit, setControlAreaGeneratingUnit)
 
@@ -260,8 +259,7 @@ class GeneratingUnit(Equipment):
         for x in self._SynchronousMachines:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._SynchronousMachines = value
+            y.GeneratingUnit = self
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
@@ -298,8 +296,7 @@ class GeneratingUnit(Equipment):
         for x in self._GrossToNetActivePowerCurves:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._GrossToNetActivePowerCurves = value
+            y.GeneratingUnit = self
 
     GrossToNetActivePowerCurves = property(getGrossToNetActivePowerCurves, setGrossToNetActivePowerCurves)
 
@@ -320,8 +317,7 @@ class GeneratingUnit(Equipment):
         for x in self._GenUnitOpCostCurves:
             x.GeneratingUnit = None
         for y in value:
-            y._GeneratingUnit = self
-        self._GenUnitOpCostCurves = value
+            y.GeneratingUnit = self
 
     GenUnitOpCostCurves = property(getGenUnitOpCostCurves, setGenUnitOpCostCurves)
 
diff --git a/CIM15/IEC61970/Generation/Production/HydroGeneratingUnit.py b/CIM15/IEC61970/Generation/Production/HydroGeneratingUnit.py
index 5e86c53..202b278 100644
--- a/CIM15/IEC61970/Generation/Production/HydroGeneratingUnit.py
+++ b/CIM15/IEC61970/Generation/Production/HydroGeneratingUnit.py
@@ -103,8 +103,7 @@ class HydroGeneratingUnit(GeneratingUnit):
         for x in self._TailbayLossCurve:
             x.HydroGeneratingUnit = None
         for y in value:
-            y._HydroGeneratingUnit = self
-        self._TailbayLossCurve = value
+            y.HydroGeneratingUnit = self
 
     TailbayLossCurve = property(getTailbayLossCurve, setTailbayLossCurve)
 
@@ -125,8 +124,7 @@ class HydroGeneratingUnit(GeneratingUnit):
         for x in self._HydroGeneratingEfficiencyCurves:
             x.HydroGeneratingUnit = None
         for y in value:
-            y._HydroGeneratingUnit = self
-        self._HydroGeneratingEfficiencyCurves = value
+            y.HydroGeneratingUnit = self
 
     HydroGeneratingEfficiencyCurves = property(getHydroGeneratingEfficiencyCurves, setHydroGeneratingEfficiencyCurves)
 
diff --git a/CIM15/IEC61970/Generation/Production/HydroPowerPlant.py b/CIM15/IEC61970/Generation/Production/HydroPowerPlant.py
index 9719ea8..0e2d40c 100644
--- a/CIM15/IEC61970/Generation/Production/HydroPowerPlant.py
+++ b/CIM15/IEC61970/Generation/Production/HydroPowerPlant.py
@@ -98,8 +98,7 @@ class HydroPowerPlant(PowerSystemResource):
         for x in self._HydroGeneratingUnits:
             x.HydroPowerPlant = None
         for y in value:
-            y._HydroPowerPlant = self
-        self._HydroGeneratingUnits = value
+            y.HydroPowerPlant = self
 
     HydroGeneratingUnits = property(getHydroGeneratingUnits, setHydroGeneratingUnits)
 
@@ -154,8 +153,7 @@ class HydroPowerPlant(PowerSystemResource):
         for x in self._HydroPumps:
             x.HydroPowerPlant = None
         for y in value:
-            y._HydroPowerPlant = self
-        self._HydroPumps = value
+            y.HydroPowerPlant = self
 
     HydroPumps = property(getHydroPumps, setHydroPumps)
 
diff --git a/CIM15/IEC61970/Generation/Production/Reservoir.py b/CIM15/IEC61970/Generation/Production/Reservoir.py
index 8dbf90f..5a03427 100644
--- a/CIM15/IEC61970/Generation/Production/Reservoir.py
+++ b/CIM15/IEC61970/Generation/Production/Reservoir.py
@@ -118,8 +118,7 @@ class Reservoir(PowerSystemResource):
         for x in self._LevelVsVolumeCurves:
             x.Reservoir = None
         for y in value:
-            y._Reservoir = self
-        self._LevelVsVolumeCurves = value
+            y.Reservoir = self
 
     LevelVsVolumeCurves = property(getLevelVsVolumeCurves, setLevelVsVolumeCurves)
 
@@ -156,8 +155,7 @@ class Reservoir(PowerSystemResource):
         for x in self._HydroPowerPlants:
             x.Reservoir = None
         for y in value:
-            y._Reservoir = self
-        self._HydroPowerPlants = value
+            y.Reservoir = self
 
     HydroPowerPlants = property(getHydroPowerPlants, setHydroPowerPlants)
 
@@ -178,8 +176,7 @@ class Reservoir(PowerSystemResource):
         for x in self._UpstreamFromHydroPowerPlants:
             x.GenSourcePumpDischargeReservoir = None
         for y in value:
-            y._GenSourcePumpDischargeReservoir = self
-        self._UpstreamFromHydroPowerPlants = value
+            y.GenSourcePumpDischargeReservoir = self
 
     UpstreamFromHydroPowerPlants = property(getUpstreamFromHydroPowerPlants, setUpstreamFromHydroPowerPlants)
 
@@ -200,8 +197,7 @@ class Reservoir(PowerSystemResource):
         for x in self._InflowForecasts:
             x.Reservoir = None
         for y in value:
-            y._Reservoir = self
-        self._InflowForecasts = value
+            y.Reservoir = self
 
     InflowForecasts = property(getInflowForecasts, setInflowForecasts)
 
@@ -239,8 +235,7 @@ class Reservoir(PowerSystemResource):
         for x in self._SpillsIntoReservoirs:
             x.SpillsFromReservoir = None
         for y in value:
-            y._SpillsFromReservoir = self
-        self._SpillsIntoReservoirs = value
+            y.SpillsFromReservoir = self
 
     SpillsIntoReservoirs = property(getSpillsIntoReservoirs, setSpillsIntoReservoirs)
 
diff --git a/CIM15/IEC61970/Generation/Production/ThermalGeneratingUnit.py b/CIM15/IEC61970/Generation/Production/ThermalGeneratingUnit.py
index 06d3b22..c35bdae 100644
--- a/CIM15/IEC61970/Generation/Production/ThermalGeneratingUnit.py
+++ b/CIM15/IEC61970/Generation/Production/ThermalGeneratingUnit.py
@@ -147,8 +147,7 @@ class ThermalGeneratingUnit(GeneratingUnit):
         for x in self._FossilFuels:
             x.ThermalGeneratingUnit = None
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._FossilFuels = value
+            y.ThermalGeneratingUnit = self
 
     FossilFuels = property(getFossilFuels, setFossilFuels)
 
@@ -185,8 +184,7 @@ class ThermalGeneratingUnit(GeneratingUnit):
         for x in self._FuelAllocationSchedules:
             x.ThermalGeneratingUnit = None
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._FuelAllocationSchedules = value
+            y.ThermalGeneratingUnit = self
 
     FuelAllocationSchedules = property(getFuelAllocationSchedules, setFuelAllocationSchedules)
 
@@ -207,8 +205,7 @@ class ThermalGeneratingUnit(GeneratingUnit):
         for x in self._EmissionCurves:
             x.ThermalGeneratingUnit = None
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._EmissionCurves = value
+            y.ThermalGeneratingUnit = self
 
     EmissionCurves = property(getEmissionCurves, setEmissionCurves)
 
@@ -294,8 +291,7 @@ class ThermalGeneratingUnit(GeneratingUnit):
         for x in self._EmmissionAccounts:
             x.ThermalGeneratingUnit = None
         for y in value:
-            y._ThermalGeneratingUnit = self
-        self._EmmissionAccounts = value
+            y.ThermalGeneratingUnit = self
 
     EmmissionAccounts = property(getEmmissionAccounts, setEmmissionAccounts)
 
diff --git a/CIM15/IEC61970/Graphics/DiagramObject.py b/CIM15/IEC61970/Graphics/DiagramObject.py
index 4a4580b..41f2a07 100644
--- a/CIM15/IEC61970/Graphics/DiagramObject.py
+++ b/CIM15/IEC61970/Graphics/DiagramObject.py
@@ -148,8 +148,7 @@ class DiagramObject(IdentifiedObject):
         for x in self._DiagramObjectPoints:
             x.DiagramObject = None
         for y in value:
-            y._DiagramObject = self
-        self._DiagramObjectPoints = value
+            y.DiagramObject = self
 
     DiagramObjectPoints = property(getDiagramObjectPoints, setDiagramObjectPoints)
 
diff --git a/CIM15/IEC61970/Graphics/DiagramObjectGluePoint.py b/CIM15/IEC61970/Graphics/DiagramObjectGluePoint.py
index fa3f135..050b7e7 100644
--- a/CIM15/IEC61970/Graphics/DiagramObjectGluePoint.py
+++ b/CIM15/IEC61970/Graphics/DiagramObjectGluePoint.py
@@ -50,8 +50,7 @@ class DiagramObjectGluePoint(Element):
         for x in self._DiagramObjectPoints:
             x.DiagramObjectGluePoint = None
         for y in value:
-            y._DiagramObjectGluePoint = self
-        self._DiagramObjectPoints = value
+            y.DiagramObjectGluePoint = self
 
     DiagramObjectPoints = property(getDiagramObjectPoints, setDiagramObjectPoints)
 
diff --git a/CIM15/IEC61970/Graphics/DiagramObjectStyle.py b/CIM15/IEC61970/Graphics/DiagramObjectStyle.py
index 5b14f48..fc63976 100644
--- a/CIM15/IEC61970/Graphics/DiagramObjectStyle.py
+++ b/CIM15/IEC61970/Graphics/DiagramObjectStyle.py
@@ -50,8 +50,7 @@ class DiagramObjectStyle(IdentifiedObject):
         for x in self._DiagramObjects:
             x.DiagramObjectStyle = None
         for y in value:
-            y._DiagramObjectStyle = self
-        self._DiagramObjects = value
+            y.DiagramObjectStyle = self
 
     DiagramObjects = property(getDiagramObjects, setDiagramObjects)
 
diff --git a/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogue.py b/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogue.py
index 7b155c0..90941f4 100644
--- a/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogue.py
+++ b/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogue.py
@@ -52,8 +52,7 @@ class AssetModelCatalogue(IdentifiedObject):
         for x in self._AssetModelCatalogueItems:
             x.AssetModelCatalogue = None
         for y in value:
-            y._AssetModelCatalogue = self
-        self._AssetModelCatalogueItems = value
+            y.AssetModelCatalogue = self
 
     AssetModelCatalogueItems = property(getAssetModelCatalogueItems, setAssetModelCatalogueItems)
 
diff --git a/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogueItem.py b/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogueItem.py
index ca6dbf3..c4457a6 100644
--- a/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogueItem.py
+++ b/CIM15/IEC61970/Informative/InfAssetModels/AssetModelCatalogueItem.py
@@ -65,8 +65,7 @@ class AssetModelCatalogueItem(Document):
         for x in self._ErpPOLineItems:
             x.AssetModelCatalogueItem = None
         for y in value:
-            y._AssetModelCatalogueItem = self
-        self._ErpPOLineItems = value
+            y.AssetModelCatalogueItem = self
 
     ErpPOLineItems = property(getErpPOLineItems, setErpPOLineItems)
 
@@ -118,8 +117,7 @@ class AssetModelCatalogueItem(Document):
         for x in self._ErpQuoteLineItems:
             x.AssetModelCatalogueItem = None
         for y in value:
-            y._AssetModelCatalogueItem = self
-        self._ErpQuoteLineItems = value
+            y.AssetModelCatalogueItem = self
 
     ErpQuoteLineItems = property(getErpQuoteLineItems, setErpQuoteLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfAssetModels/TransformerAssetModel.py b/CIM15/IEC61970/Informative/InfAssetModels/TransformerAssetModel.py
index 3a178e8..d27b190 100644
--- a/CIM15/IEC61970/Informative/InfAssetModels/TransformerAssetModel.py
+++ b/CIM15/IEC61970/Informative/InfAssetModels/TransformerAssetModel.py
@@ -109,8 +109,7 @@ class TransformerAssetModel(ProductAssetModel):
         for x in self._TransformerAssets:
             x.TransformerAssetModel = None
         for y in value:
-            y._TransformerAssetModel = self
-        self._TransformerAssets = value
+            y.TransformerAssetModel = self
 
     TransformerAssets = property(getTransformerAssets, setTransformerAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Bushing.py b/CIM15/IEC61970/Informative/InfAssets/Bushing.py
index 2048e2a..a78237d 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Bushing.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Bushing.py
@@ -88,8 +88,7 @@ class Bushing(Asset):
         for x in self._BushingInsulationPFs:
             x.BushingInfo = None
         for y in value:
-            y._BushingInfo = self
-        self._BushingInsulationPFs = value
+            y.BushingInfo = self
 
     BushingInsulationPFs = property(getBushingInsulationPFs, setBushingInsulationPFs)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/ComEquipment.py b/CIM15/IEC61970/Informative/InfAssets/ComEquipment.py
index adfc3ab..ce079f6 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ComEquipment.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ComEquipment.py
@@ -50,8 +50,7 @@ class ComEquipment(Asset):
         for x in self._EndDeviceFunctions:
             x.ComEquipment = None
         for y in value:
-            y._ComEquipment = self
-        self._EndDeviceFunctions = value
+            y.ComEquipment = self
 
     EndDeviceFunctions = property(getEndDeviceFunctions, setEndDeviceFunctions)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/CurrentTransformerInfo.py b/CIM15/IEC61970/Informative/InfAssets/CurrentTransformerInfo.py
index 4662ed2..c572633 100644
--- a/CIM15/IEC61970/Informative/InfAssets/CurrentTransformerInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/CurrentTransformerInfo.py
@@ -115,8 +115,7 @@ class CurrentTransformerInfo(AssetInfo):
         for x in self._CTs:
             x.CTInfo = None
         for y in value:
-            y._CTInfo = self
-        self._CTs = value
+            y.CTInfo = self
 
     CTs = property(getCTs, setCTs)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
index ae3e8cb..5d19f82 100644
--- a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
@@ -77,8 +77,7 @@ class DimensionsInfo(IdentifiedObject):
         for x in self._Locations:
             x.DimensionsInfo = None
         for y in value:
-            y._DimensionsInfo = self
-        self._Locations = value
+            y.DimensionsInfo = self
 
     Locations = property(getLocations, setLocations)
 
@@ -98,8 +97,7 @@ class DimensionsInfo(IdentifiedObject):
         for x in self._AssetInfos:
             x.DimensionsInfo = None
         for y in value:
-            y._DimensionsInfo = self
-        self._AssetInfos = value
+            y.DimensionsInfo = self
 
     AssetInfos = property(getAssetInfos, setAssetInfos)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Duct.py b/CIM15/IEC61970/Informative/InfAssets/Duct.py
index f67740e..e9d1d2c 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Duct.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Duct.py
@@ -77,8 +77,7 @@ class Duct(AssetContainer):
         for x in self._CableInfos:
             x.DuctBankInfo = None
         for y in value:
-            y._DuctBankInfo = self
-        self._CableInfos = value
+            y.DuctBankInfo = self
 
     CableInfos = property(getCableInfos, setCableInfos)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/DuctBank.py b/CIM15/IEC61970/Informative/InfAssets/DuctBank.py
index a683cde..f621fcd 100644
--- a/CIM15/IEC61970/Informative/InfAssets/DuctBank.py
+++ b/CIM15/IEC61970/Informative/InfAssets/DuctBank.py
@@ -53,8 +53,7 @@ class DuctBank(AssetContainer):
         for x in self._DuctInfos:
             x.DuctBankInfo = None
         for y in value:
-            y._DuctBankInfo = self
-        self._DuctInfos = value
+            y.DuctBankInfo = self
 
     DuctInfos = property(getDuctInfos, setDuctInfos)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/FaultIndicatorInfo.py b/CIM15/IEC61970/Informative/InfAssets/FaultIndicatorInfo.py
index fa866ea..6eee9fa 100644
--- a/CIM15/IEC61970/Informative/InfAssets/FaultIndicatorInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/FaultIndicatorInfo.py
@@ -54,8 +54,7 @@ class FaultIndicatorInfo(AssetInfo):
         for x in self._FaultIndicators:
             x.FaultIndicatorInfo = None
         for y in value:
-            y._FaultIndicatorInfo = self
-        self._FaultIndicators = value
+            y.FaultIndicatorInfo = self
 
     FaultIndicators = property(getFaultIndicators, setFaultIndicators)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/GenericAssetModelOrMaterial.py b/CIM15/IEC61970/Informative/InfAssets/GenericAssetModelOrMaterial.py
index 5872452..41f3524 100644
--- a/CIM15/IEC61970/Informative/InfAssets/GenericAssetModelOrMaterial.py
+++ b/CIM15/IEC61970/Informative/InfAssets/GenericAssetModelOrMaterial.py
@@ -85,8 +85,7 @@ class GenericAssetModelOrMaterial(AssetModel):
         for x in self._ErpReqLineItems:
             x.TypeAsset = None
         for y in value:
-            y._TypeAsset = self
-        self._ErpReqLineItems = value
+            y.TypeAsset = self
 
     ErpReqLineItems = property(getErpReqLineItems, setErpReqLineItems)
 
@@ -107,8 +106,7 @@ class GenericAssetModelOrMaterial(AssetModel):
         for x in self._ProductAssetModels:
             x.GenericAssetModelOrMaterial = None
         for y in value:
-            y._GenericAssetModelOrMaterial = self
-        self._ProductAssetModels = value
+            y.GenericAssetModelOrMaterial = self
 
     ProductAssetModels = property(getProductAssetModels, setProductAssetModels)
 
@@ -128,8 +126,7 @@ class GenericAssetModelOrMaterial(AssetModel):
         for x in self._ErpInventoryIssues:
             x.TypeAsset = None
         for y in value:
-            y._TypeAsset = self
-        self._ErpInventoryIssues = value
+            y.TypeAsset = self
 
     ErpInventoryIssues = property(getErpInventoryIssues, setErpInventoryIssues)
 
@@ -195,8 +192,7 @@ class GenericAssetModelOrMaterial(AssetModel):
         for x in self._ErpBomItemDatas:
             x.TypeAsset = None
         for y in value:
-            y._TypeAsset = self
-        self._ErpBomItemDatas = value
+            y.TypeAsset = self
 
     ErpBomItemDatas = property(getErpBomItemDatas, setErpBomItemDatas)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
index 0d62f01..1de4ad7 100644
--- a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
+++ b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
@@ -92,8 +92,7 @@ class MountingPoint(IdentifiedObject):
         for x in self._OverheadConductors:
             x.MountingPoint = None
         for y in value:
-            y._MountingPoint = self
-        self._OverheadConductors = value
+            y.MountingPoint = self
 
     OverheadConductors = property(getOverheadConductors, setOverheadConductors)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Pole.py b/CIM15/IEC61970/Informative/InfAssets/Pole.py
index f222b29..12512eb 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Pole.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Pole.py
@@ -94,8 +94,7 @@ class Pole(Structure):
         for x in self._Streetlights:
             x.Pole = None
         for y in value:
-            y._Pole = self
-        self._Streetlights = value
+            y.Pole = self
 
     Streetlights = property(getStreetlights, setStreetlights)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/PotentialTransformerInfo.py b/CIM15/IEC61970/Informative/InfAssets/PotentialTransformerInfo.py
index 0de186e..a3e1b08 100644
--- a/CIM15/IEC61970/Informative/InfAssets/PotentialTransformerInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/PotentialTransformerInfo.py
@@ -78,8 +78,7 @@ class PotentialTransformerInfo(AssetInfo):
         for x in self._PTs:
             x.PTInfo = None
         for y in value:
-            y._PTInfo = self
-        self._PTs = value
+            y.PTInfo = self
 
     PTs = property(getPTs, setPTs)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Procedure.py b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
index 0144a22..a029825 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Procedure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
@@ -78,8 +78,7 @@ class Procedure(Document):
         for x in self._ProcedureValues:
             x.Procedure = None
         for y in value:
-            y._Procedure = self
-        self._ProcedureValues = value
+            y.Procedure = self
 
     ProcedureValues = property(getProcedureValues, setProcedureValues)
 
@@ -99,8 +98,7 @@ class Procedure(Document):
         for x in self._ProcedureDataSets:
             x.Procedure = None
         for y in value:
-            y._Procedure = self
-        self._ProcedureDataSets = value
+            y.Procedure = self
 
     ProcedureDataSets = property(getProcedureDataSets, setProcedureDataSets)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/ShuntImpedanceInfo.py b/CIM15/IEC61970/Informative/InfAssets/ShuntImpedanceInfo.py
index fcf3a77..af31117 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ShuntImpedanceInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ShuntImpedanceInfo.py
@@ -117,8 +117,7 @@ class ShuntImpedanceInfo(AssetInfo):
         for x in self._ShuntCompensatorInfos:
             x.ShuntImpedanceInfo = None
         for y in value:
-            y._ShuntImpedanceInfo = self
-        self._ShuntCompensatorInfos = value
+            y.ShuntImpedanceInfo = self
 
     ShuntCompensatorInfos = property(getShuntCompensatorInfos, setShuntCompensatorInfos)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Specification.py b/CIM15/IEC61970/Informative/InfAssets/Specification.py
index ca390ce..5750364 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Specification.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Specification.py
@@ -73,8 +73,7 @@ class Specification(Document):
         for x in self._AssetPropertyCurves:
             x.Specification = None
         for y in value:
-            y._Specification = self
-        self._AssetPropertyCurves = value
+            y.Specification = self
 
     AssetPropertyCurves = property(getAssetPropertyCurves, setAssetPropertyCurves)
 
@@ -94,8 +93,7 @@ class Specification(Document):
         for x in self._Mediums:
             x.Specification = None
         for y in value:
-            y._Specification = self
-        self._Mediums = value
+            y.Specification = self
 
     Mediums = property(getMediums, setMediums)
 
@@ -116,8 +114,7 @@ class Specification(Document):
         for x in self._AssetProperites:
             x.PropertySpecification = None
         for y in value:
-            y._PropertySpecification = self
-        self._AssetProperites = value
+            y.PropertySpecification = self
 
     AssetProperites = property(getAssetProperites, setAssetProperites)
 
@@ -137,8 +134,7 @@ class Specification(Document):
         for x in self._ReliabilityInfos:
             x.Specification = None
         for y in value:
-            y._Specification = self
-        self._ReliabilityInfos = value
+            y.Specification = self
 
     ReliabilityInfos = property(getReliabilityInfos, setReliabilityInfos)
 
@@ -186,8 +182,7 @@ class Specification(Document):
         for x in self._Ratings:
             x.RatingSpecification = None
         for y in value:
-            y._RatingSpecification = self
-        self._Ratings = value
+            y.RatingSpecification = self
 
     Ratings = property(getRatings, setRatings)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Structure.py b/CIM15/IEC61970/Informative/InfAssets/Structure.py
index 47e8b48..4629990 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Structure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Structure.py
@@ -81,8 +81,7 @@ class Structure(AssetContainer):
         for x in self._StructureSupportInfos:
             x.SecuredStructure = None
         for y in value:
-            y._SecuredStructure = self
-        self._StructureSupportInfos = value
+            y.SecuredStructure = self
 
     StructureSupportInfos = property(getStructureSupportInfos, setStructureSupportInfos)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/SurgeProtectorInfo.py b/CIM15/IEC61970/Informative/InfAssets/SurgeProtectorInfo.py
index 806e903..f33e4fc 100644
--- a/CIM15/IEC61970/Informative/InfAssets/SurgeProtectorInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/SurgeProtectorInfo.py
@@ -66,8 +66,7 @@ class SurgeProtectorInfo(AssetInfo):
         for x in self._SurgeProtectors:
             x.SurgeProtectorInfo = None
         for y in value:
-            y._SurgeProtectorInfo = self
-        self._SurgeProtectors = value
+            y.SurgeProtectorInfo = self
 
     SurgeProtectors = property(getSurgeProtectors, setSurgeProtectors)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
index 5690383..fa94b8a 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
@@ -92,8 +92,7 @@ class TransformerAsset(Asset):
         for x in self._TransformerObservations:
             x.TransformerAsset = None
         for y in value:
-            y._TransformerAsset = self
-        self._TransformerObservations = value
+            y.TransformerAsset = self
 
     TransformerObservations = property(getTransformerObservations, setTransformerObservations)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
index 0a322ff..3ab7fe4 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
@@ -120,8 +120,7 @@ class TransformerObservation(IdentifiedObject):
         for x in self._BushingInsultationPFs:
             x.TransformerObservation = None
         for y in value:
-            y._TransformerObservation = self
-        self._BushingInsultationPFs = value
+            y.TransformerObservation = self
 
     BushingInsultationPFs = property(getBushingInsultationPFs, setBushingInsultationPFs)
 
@@ -186,8 +185,7 @@ class TransformerObservation(IdentifiedObject):
         for x in self._WindingInsulationPFs:
             x.TransformerObservation = None
         for y in value:
-            y._TransformerObservation = self
-        self._WindingInsulationPFs = value
+            y.TransformerObservation = self
 
     WindingInsulationPFs = property(getWindingInsulationPFs, setWindingInsulationPFs)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/WorkEquipment.py b/CIM15/IEC61970/Informative/InfAssets/WorkEquipment.py
index f60be67..3a4b64c 100644
--- a/CIM15/IEC61970/Informative/InfAssets/WorkEquipment.py
+++ b/CIM15/IEC61970/Informative/InfAssets/WorkEquipment.py
@@ -69,8 +69,7 @@ class WorkEquipment(Asset):
         for x in self._Usages:
             x.WorkEquipmentAsset = None
         for y in value:
-            y._WorkEquipmentAsset = self
-        self._Usages = value
+            y.WorkEquipmentAsset = self
 
     Usages = property(getUsages, setUsages)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/Bank.py b/CIM15/IEC61970/Informative/InfCommon/Bank.py
index fe188f9..46372c2 100644
--- a/CIM15/IEC61970/Informative/InfCommon/Bank.py
+++ b/CIM15/IEC61970/Informative/InfCommon/Bank.py
@@ -62,8 +62,7 @@ class Bank(Organisation):
         for x in self._BankAccounts:
             x.Bank = None
         for y in value:
-            y._Bank = self
-        self._BankAccounts = value
+            y.Bank = self
 
     BankAccounts = property(getBankAccounts, setBankAccounts)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
index 8310d9e..57fde1b 100644
--- a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
+++ b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
@@ -115,8 +115,7 @@ class ScheduleParameterInfo(IdentifiedObject):
         for x in self._ScheduledEvents:
             x.ScheduleParameterInfo = None
         for y in value:
-            y._ScheduleParameterInfo = self
-        self._ScheduledEvents = value
+            y.ScheduleParameterInfo = self
 
     ScheduledEvents = property(getScheduledEvents, setScheduledEvents)
 
diff --git a/CIM15/IEC61970/Informative/InfCore/ModelingAuthority.py b/CIM15/IEC61970/Informative/InfCore/ModelingAuthority.py
index 3c4d0be..cab4d84 100644
--- a/CIM15/IEC61970/Informative/InfCore/ModelingAuthority.py
+++ b/CIM15/IEC61970/Informative/InfCore/ModelingAuthority.py
@@ -50,8 +50,7 @@ class ModelingAuthority(IdentifiedObject):
         for x in self._ModelingAuthoritySets:
             x.ModelingAuthority = None
         for y in value:
-            y._ModelingAuthority = self
-        self._ModelingAuthoritySets = value
+            y.ModelingAuthority = self
 
     ModelingAuthoritySets = property(getModelingAuthoritySets, setModelingAuthoritySets)
 
diff --git a/CIM15/IEC61970/Informative/InfCore/ModelingAuthoritySet.py b/CIM15/IEC61970/Informative/InfCore/ModelingAuthoritySet.py
index bfa8421..1a14eb4 100644
--- a/CIM15/IEC61970/Informative/InfCore/ModelingAuthoritySet.py
+++ b/CIM15/IEC61970/Informative/InfCore/ModelingAuthoritySet.py
@@ -54,8 +54,7 @@ class ModelingAuthoritySet(IdentifiedObject):
         for x in self._IdentifiedObjects:
             x.ModelingAuthoritySet = None
         for y in value:
-            y._ModelingAuthoritySet = self
-        self._IdentifiedObjects = value
+            y.ModelingAuthoritySet = self
 
     IdentifiedObjects = property(getIdentifiedObjects, setIdentifiedObjects)
 
diff --git a/CIM15/IEC61970/Informative/InfCustomers/OutageHistory.py b/CIM15/IEC61970/Informative/InfCustomers/OutageHistory.py
index 5ddad60..311c0d9 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/OutageHistory.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/OutageHistory.py
@@ -50,8 +50,7 @@ class OutageHistory(Document):
         for x in self._OutageReports:
             x.OutageHistory = None
         for y in value:
-            y._OutageHistory = self
-        self._OutageReports = value
+            y.OutageHistory = self
 
     OutageReports = property(getOutageReports, setOutageReports)
 
diff --git a/CIM15/IEC61970/Informative/InfCustomers/StandardIndustryCode.py b/CIM15/IEC61970/Informative/InfCustomers/StandardIndustryCode.py
index 37609ee..b90e680 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/StandardIndustryCode.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/StandardIndustryCode.py
@@ -53,8 +53,7 @@ class StandardIndustryCode(Document):
         for x in self._CustomerAgreements:
             x.StandardIndustryCode = None
         for y in value:
-            y._StandardIndustryCode = self
-        self._CustomerAgreements = value
+            y.StandardIndustryCode = self
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
index 397c5ab..d7c6426 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
@@ -85,8 +85,7 @@ class WorkBillingInfo(Document):
         for x in self._Works:
             x.WorkBillingInfo = None
         for y in value:
-            y._WorkBillingInfo = self
-        self._Works = value
+            y.WorkBillingInfo = self
 
     Works = property(getWorks, setWorks)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpBOM.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpBOM.py
index 4075fad..6135c39 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpBOM.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpBOM.py
@@ -69,8 +69,7 @@ class ErpBOM(Document):
         for x in self._ErpBomItemDatas:
             x.ErpBOM = None
         for y in value:
-            y._ErpBOM = self
-        self._ErpBomItemDatas = value
+            y.ErpBOM = self
 
     ErpBomItemDatas = property(getErpBomItemDatas, setErpBomItemDatas)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpCompetency.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpCompetency.py
index d060657..b1d5d35 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpCompetency.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpCompetency.py
@@ -49,8 +49,7 @@ class ErpCompetency(IdentifiedObject):
         for x in self._ErpPersons:
             x.ErpCompetency = None
         for y in value:
-            y._ErpCompetency = self
-        self._ErpPersons = value
+            y.ErpCompetency = self
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoice.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoice.py
index b649043..6121d9b 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoice.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoice.py
@@ -89,8 +89,7 @@ class ErpInvoice(Document):
         for x in self._ErpInvoiceLineItems:
             x.ErpInvoice = None
         for y in value:
-            y._ErpInvoice = self
-        self._ErpInvoiceLineItems = value
+            y.ErpInvoice = self
 
     ErpInvoiceLineItems = property(getErpInvoiceLineItems, setErpInvoiceLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
index b1e5c6c..e4fee09 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
@@ -270,8 +270,7 @@ class ErpInvoiceLineItem(Document):
         for x in self._ComponentErpInvoiceLineItems:
             x.ContainerErpInvoiceLineItem = None
         for y in value:
-            y._ContainerErpInvoiceLineItem = self
-        self._ComponentErpInvoiceLineItems = value
+            y.ContainerErpInvoiceLineItem = self
 
     ComponentErpInvoiceLineItems = property(getComponentErpInvoiceLineItems, setComponentErpInvoiceLineItems)
 
@@ -353,8 +352,7 @@ class ErpInvoiceLineItem(Document):
         for x in self._ErpJournalEntries:
             x.ErpInvoiceLineItem = None
         for y in value:
-            y._ErpInvoiceLineItem = self
-        self._ErpJournalEntries = value
+            y.ErpInvoiceLineItem = self
 
     ErpJournalEntries = property(getErpJournalEntries, setErpJournalEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournal.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournal.py
index d351a44..9f90b15 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournal.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournal.py
@@ -49,8 +49,7 @@ class ErpJournal(Document):
         for x in self._ErpJournalEntries:
             x.ErpJournal = None
         for y in value:
-            y._ErpJournal = self
-        self._ErpJournalEntries = value
+            y.ErpJournal = self
 
     ErpJournalEntries = property(getErpJournalEntries, setErpJournalEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedger.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedger.py
index 924694b..9fc4ef1 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedger.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedger.py
@@ -49,8 +49,7 @@ class ErpLedger(Document):
         for x in self._ErpLedgerEntries:
             x.ErpLedger = None
         for y in value:
-            y._ErpLedger = self
-        self._ErpLedgerEntries = value
+            y.ErpLedger = self
 
     ErpLedgerEntries = property(getErpLedgerEntries, setErpLedgerEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerBudget.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerBudget.py
index 794f492..64a75d7 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerBudget.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerBudget.py
@@ -49,8 +49,7 @@ class ErpLedgerBudget(Document):
         for x in self._ErpLedBudLineItems:
             x.ErpLedgerBudget = None
         for y in value:
-            y._ErpLedgerBudget = self
-        self._ErpLedBudLineItems = value
+            y.ErpLedgerBudget = self
 
     ErpLedBudLineItems = property(getErpLedBudLineItems, setErpLedBudLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
index 60f0aca..19b0fbb 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
@@ -125,8 +125,7 @@ class ErpOrganisation(Organisation):
         for x in self._AssetRoles:
             x.ErpOrganisation = None
         for y in value:
-            y._ErpOrganisation = self
-        self._AssetRoles = value
+            y.ErpOrganisation = self
 
     AssetRoles = property(getAssetRoles, setAssetRoles)
 
@@ -146,8 +145,7 @@ class ErpOrganisation(Organisation):
         for x in self._Requests:
             x.Organisation = None
         for y in value:
-            y._Organisation = self
-        self._Requests = value
+            y.Organisation = self
 
     Requests = property(getRequests, setRequests)
 
@@ -194,8 +192,7 @@ class ErpOrganisation(Organisation):
         for x in self._ChangeItems:
             x.Organisation = None
         for y in value:
-            y._Organisation = self
-        self._ChangeItems = value
+            y.Organisation = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -215,8 +212,7 @@ class ErpOrganisation(Organisation):
         for x in self._ErpPersonRoles:
             x.ErpOrganisation = None
         for y in value:
-            y._ErpOrganisation = self
-        self._ErpPersonRoles = value
+            y.ErpOrganisation = self
 
     ErpPersonRoles = property(getErpPersonRoles, setErpPersonRoles)
 
@@ -263,8 +259,7 @@ class ErpOrganisation(Organisation):
         for x in self._ParentOrganisationRoles:
             x.ChildOrganisation = None
         for y in value:
-            y._ChildOrganisation = self
-        self._ParentOrganisationRoles = value
+            y.ChildOrganisation = self
 
     ParentOrganisationRoles = property(getParentOrganisationRoles, setParentOrganisationRoles)
 
@@ -311,8 +306,7 @@ class ErpOrganisation(Organisation):
         for x in self._ChildOrganisationRoles:
             x.ParentOrganisation = None
         for y in value:
-            y._ParentOrganisation = self
-        self._ChildOrganisationRoles = value
+            y.ParentOrganisation = self
 
     ChildOrganisationRoles = property(getChildOrganisationRoles, setChildOrganisationRoles)
 
@@ -332,8 +326,7 @@ class ErpOrganisation(Organisation):
         for x in self._PowerSystemResourceRoles:
             x.ErpOrganisation = None
         for y in value:
-            y._ErpOrganisation = self
-        self._PowerSystemResourceRoles = value
+            y.ErpOrganisation = self
 
     PowerSystemResourceRoles = property(getPowerSystemResourceRoles, setPowerSystemResourceRoles)
 
@@ -353,8 +346,7 @@ class ErpOrganisation(Organisation):
         for x in self._LandPropertyRoles:
             x.ErpOrganisation = None
         for y in value:
-            y._ErpOrganisation = self
-        self._LandPropertyRoles = value
+            y.ErpOrganisation = self
 
     LandPropertyRoles = property(getLandPropertyRoles, setLandPropertyRoles)
 
@@ -374,8 +366,7 @@ class ErpOrganisation(Organisation):
         for x in self._DocumentRoles:
             x.ErpOrganisation = None
         for y in value:
-            y._ErpOrganisation = self
-        self._DocumentRoles = value
+            y.ErpOrganisation = self
 
     DocumentRoles = property(getDocumentRoles, setDocumentRoles)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
index 6c41fb6..c64d74d 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
@@ -80,8 +80,7 @@ class ErpPayable(Document):
         for x in self._ErpPayableLineItems:
             x.ErpPayable = None
         for y in value:
-            y._ErpPayable = self
-        self._ErpPayableLineItems = value
+            y.ErpPayable = self
 
     ErpPayableLineItems = property(getErpPayableLineItems, setErpPayableLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
index d153c89..304deca 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
@@ -173,8 +173,7 @@ class ErpPerson(IdentifiedObject):
         for x in self._ErpOrganisationRoles:
             x.ErpPerson = None
         for y in value:
-            y._ErpPerson = self
-        self._ErpOrganisationRoles = value
+            y.ErpPerson = self
 
     ErpOrganisationRoles = property(getErpOrganisationRoles, setErpOrganisationRoles)
 
@@ -276,8 +275,7 @@ class ErpPerson(IdentifiedObject):
         for x in self._LandPropertyRoles:
             x.ErpPerson = None
         for y in value:
-            y._ErpPerson = self
-        self._LandPropertyRoles = value
+            y.ErpPerson = self
 
     LandPropertyRoles = property(getLandPropertyRoles, setLandPropertyRoles)
 
@@ -324,8 +322,7 @@ class ErpPerson(IdentifiedObject):
         for x in self._MeasurementValues:
             x.ErpPerson = None
         for y in value:
-            y._ErpPerson = self
-        self._MeasurementValues = value
+            y.ErpPerson = self
 
     MeasurementValues = property(getMeasurementValues, setMeasurementValues)
 
@@ -345,8 +342,7 @@ class ErpPerson(IdentifiedObject):
         for x in self._Skills:
             x.ErpPerson = None
         for y in value:
-            y._ErpPerson = self
-        self._Skills = value
+            y.ErpPerson = self
 
     Skills = property(getSkills, setSkills)
 
@@ -372,8 +368,7 @@ class ErpPerson(IdentifiedObject):
         for x in self._ChangeItems:
             x.ErpPerson = None
         for y in value:
-            y._ErpPerson = self
-        self._ChangeItems = value
+            y.ErpPerson = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -395,8 +390,7 @@ class ErpPerson(IdentifiedObject):
         for x in self._DocumentRoles:
             x.ErpPerson = None
         for y in value:
-            y._ErpPerson = self
-        self._DocumentRoles = value
+            y.ErpPerson = self
 
     DocumentRoles = property(getDocumentRoles, setDocumentRoles)
 
@@ -502,8 +496,7 @@ class ErpPerson(IdentifiedObject):
         for x in self._SwitchingStepRoles:
             x.ErpPerson = None
         for y in value:
-            y._ErpPerson = self
-        self._SwitchingStepRoles = value
+            y.ErpPerson = self
 
     SwitchingStepRoles = property(getSwitchingStepRoles, setSwitchingStepRoles)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPersonnel.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPersonnel.py
index ffe7e75..07ecb1f 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPersonnel.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPersonnel.py
@@ -54,8 +54,7 @@ class ErpPersonnel(IdentifiedObject):
         for x in self._ErpPersons:
             x.ErpPersonnel = None
         for y in value:
-            y._ErpPersonnel = self
-        self._ErpPersons = value
+            y.ErpPersonnel = self
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpProjectAccounting.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpProjectAccounting.py
index 693fc46..157e946 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpProjectAccounting.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpProjectAccounting.py
@@ -61,8 +61,7 @@ class ErpProjectAccounting(Document):
         for x in self._Works:
             x.ErpProjectAccounting = None
         for y in value:
-            y._ErpProjectAccounting = self
-        self._Works = value
+            y.ErpProjectAccounting = self
 
     Works = property(getWorks, setWorks)
 
@@ -82,8 +81,7 @@ class ErpProjectAccounting(Document):
         for x in self._Projects:
             x.ErpProjectAccounting = None
         for y in value:
-            y._ErpProjectAccounting = self
-        self._Projects = value
+            y.ErpProjectAccounting = self
 
     Projects = property(getProjects, setProjects)
 
@@ -103,8 +101,7 @@ class ErpProjectAccounting(Document):
         for x in self._ErpTimeEntries:
             x.ErpProjectAccounting = None
         for y in value:
-            y._ErpProjectAccounting = self
-        self._ErpTimeEntries = value
+            y.ErpProjectAccounting = self
 
     ErpTimeEntries = property(getErpTimeEntries, setErpTimeEntries)
 
@@ -124,8 +121,7 @@ class ErpProjectAccounting(Document):
         for x in self._WorkCostDetails:
             x.ErpProjectAccounting = None
         for y in value:
-            y._ErpProjectAccounting = self
-        self._WorkCostDetails = value
+            y.ErpProjectAccounting = self
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPurchaseOrder.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPurchaseOrder.py
index e6c4925..a8a4888 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPurchaseOrder.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPurchaseOrder.py
@@ -49,8 +49,7 @@ class ErpPurchaseOrder(Document):
         for x in self._ErpPOLineItems:
             x.ErpPurchaseOrder = None
         for y in value:
-            y._ErpPurchaseOrder = self
-        self._ErpPOLineItems = value
+            y.ErpPurchaseOrder = self
 
     ErpPOLineItems = property(getErpPOLineItems, setErpPOLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpQuote.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpQuote.py
index 6b835d6..906d181 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpQuote.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpQuote.py
@@ -49,8 +49,7 @@ class ErpQuote(Document):
         for x in self._ErpQuoteLineItems:
             x.ErpQuote = None
         for y in value:
-            y._ErpQuote = self
-        self._ErpQuoteLineItems = value
+            y.ErpQuote = self
 
     ErpQuoteLineItems = property(getErpQuoteLineItems, setErpQuoteLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpReceivable.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpReceivable.py
index a26a7ce..84a6f42 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpReceivable.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpReceivable.py
@@ -49,8 +49,7 @@ class ErpReceivable(Document):
         for x in self._ErpRecLineItems:
             x.ErpReceivable = None
         for y in value:
-            y._ErpReceivable = self
-        self._ErpRecLineItems = value
+            y.ErpReceivable = self
 
     ErpRecLineItems = property(getErpRecLineItems, setErpRecLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpReceiveDelivery.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpReceiveDelivery.py
index bf53e56..92fcca0 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpReceiveDelivery.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpReceiveDelivery.py
@@ -49,8 +49,7 @@ class ErpReceiveDelivery(Document):
         for x in self._ErpRecDelvLineItems:
             x.ErpReceiveDelivery = None
         for y in value:
-            y._ErpReceiveDelivery = self
-        self._ErpRecDelvLineItems = value
+            y.ErpReceiveDelivery = self
 
     ErpRecDelvLineItems = property(getErpRecDelvLineItems, setErpRecDelvLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpRequisition.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpRequisition.py
index 605fb05..b1eed17 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpRequisition.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpRequisition.py
@@ -49,8 +49,7 @@ class ErpRequisition(Document):
         for x in self._ErpReqLineItems:
             x.ErpRequisition = None
         for y in value:
-            y._ErpRequisition = self
-        self._ErpReqLineItems = value
+            y.ErpRequisition = self
 
     ErpReqLineItems = property(getErpReqLineItems, setErpReqLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpTimeSheet.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpTimeSheet.py
index 8a38d9b..c941167 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpTimeSheet.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpTimeSheet.py
@@ -49,8 +49,7 @@ class ErpTimeSheet(Document):
         for x in self._ErpTimeEntries:
             x.ErpTimeSheet = None
         for y in value:
-            y._ErpTimeSheet = self
-        self._ErpTimeEntries = value
+            y.ErpTimeSheet = self
 
     ErpTimeEntries = property(getErpTimeEntries, setErpTimeEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
index 4ae686b..a841f9b 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
@@ -86,8 +86,7 @@ class Diagram(Document):
         for x in self._DiagramObjects:
             x.Diagram = None
         for y in value:
-            y._Diagram = self
-        self._DiagramObjects = value
+            y.Diagram = self
 
     DiagramObjects = property(getDiagramObjects, setDiagramObjects)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlBaseSymbol.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlBaseSymbol.py
index ecc88b7..fad9105 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlBaseSymbol.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlBaseSymbol.py
@@ -49,8 +49,7 @@ class GmlBaseSymbol(IdentifiedObject):
         for x in self._GmlSymbols:
             x.GmlBaseSymbol = None
         for y in value:
-            y._GmlBaseSymbol = self
-        self._GmlSymbols = value
+            y.GmlBaseSymbol = self
 
     GmlSymbols = property(getGmlSymbols, setGmlSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlColour.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlColour.py
index 6d667f8..da11826 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlColour.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlColour.py
@@ -69,8 +69,7 @@ class GmlColour(IdentifiedObject):
         for x in self._GmlFills:
             x.GmlColour = None
         for y in value:
-            y._GmlColour = self
-        self._GmlFills = value
+            y.GmlColour = self
 
     GmlFills = property(getGmlFills, setGmlFills)
 
@@ -90,8 +89,7 @@ class GmlColour(IdentifiedObject):
         for x in self._GmlFonts:
             x.GmlColour = None
         for y in value:
-            y._GmlColour = self
-        self._GmlFonts = value
+            y.GmlColour = self
 
     GmlFonts = property(getGmlFonts, setGmlFonts)
 
@@ -111,8 +109,7 @@ class GmlColour(IdentifiedObject):
         for x in self._GmlStrokes:
             x.GmlColour = None
         for y in value:
-            y._GmlColour = self
-        self._GmlStrokes = value
+            y.GmlColour = self
 
     GmlStrokes = property(getGmlStrokes, setGmlStrokes)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
index aea9ab4..790e12b 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
@@ -162,8 +162,7 @@ class GmlDiagramObject(IdentifiedObject):
         for x in self._GmlPointSymbols:
             x.GmlDiagramObject = None
         for y in value:
-            y._GmlDiagramObject = self
-        self._GmlPointSymbols = value
+            y.GmlDiagramObject = self
 
     GmlPointSymbols = property(getGmlPointSymbols, setGmlPointSymbols)
 
@@ -183,8 +182,7 @@ class GmlDiagramObject(IdentifiedObject):
         for x in self._GmlLineSymbols:
             x.GmlDiagramObject = None
         for y in value:
-            y._GmlDiagramObject = self
-        self._GmlLineSymbols = value
+            y.GmlDiagramObject = self
 
     GmlLineSymbols = property(getGmlLineSymbols, setGmlLineSymbols)
 
@@ -204,8 +202,7 @@ class GmlDiagramObject(IdentifiedObject):
         for x in self._GmlRasterSymbols:
             x.GmlDiagramObject = None
         for y in value:
-            y._GmlDiagramObject = self
-        self._GmlRasterSymbols = value
+            y.GmlDiagramObject = self
 
     GmlRasterSymbols = property(getGmlRasterSymbols, setGmlRasterSymbols)
 
@@ -252,8 +249,7 @@ class GmlDiagramObject(IdentifiedObject):
         for x in self._GmlTextSymbols:
             x.GmlDiagramObject = None
         for y in value:
-            y._GmlDiagramObject = self
-        self._GmlTextSymbols = value
+            y.GmlDiagramObject = self
 
     GmlTextSymbols = property(getGmlTextSymbols, setGmlTextSymbols)
 
@@ -273,8 +269,7 @@ class GmlDiagramObject(IdentifiedObject):
         for x in self._GmlPolygonSymbols:
             x.GmlDiagramObject = None
         for y in value:
-            y._GmlDiagramObject = self
-        self._GmlPolygonSymbols = value
+            y.GmlDiagramObject = self
 
     GmlPolygonSymbols = property(getGmlPolygonSymbols, setGmlPolygonSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
index 8038a68..d40c82f 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
@@ -93,8 +93,7 @@ class GmlFeatureStyle(IdentifiedObject):
         for x in self._GmlGeometryStyles:
             x.GmlFeatureStyle = None
         for y in value:
-            y._GmlFeatureStyle = self
-        self._GmlGeometryStyles = value
+            y.GmlFeatureStyle = self
 
     GmlGeometryStyles = property(getGmlGeometryStyles, setGmlGeometryStyles)
 
@@ -141,8 +140,7 @@ class GmlFeatureStyle(IdentifiedObject):
         for x in self._GmlTobologyStyles:
             x.GmlFeatureStyle = None
         for y in value:
-            y._GmlFeatureStyle = self
-        self._GmlTobologyStyles = value
+            y.GmlFeatureStyle = self
 
     GmlTobologyStyles = property(getGmlTobologyStyles, setGmlTobologyStyles)
 
@@ -162,8 +160,7 @@ class GmlFeatureStyle(IdentifiedObject):
         for x in self._GmlLabelStyles:
             x.GmlFeatureStyle = None
         for y in value:
-            y._GmlFeatureStyle = self
-        self._GmlLabelStyles = value
+            y.GmlFeatureStyle = self
 
     GmlLabelStyles = property(getGmlLabelStyles, setGmlLabelStyles)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
index 62998f5..50f0d4f 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
@@ -112,8 +112,7 @@ class GmlFill(IdentifiedObject):
         for x in self._GmlTextSymbols:
             x.GmlFill = None
         for y in value:
-            y._GmlFill = self
-        self._GmlTextSymbols = value
+            y.GmlFill = self
 
     GmlTextSymbols = property(getGmlTextSymbols, setGmlTextSymbols)
 
@@ -160,8 +159,7 @@ class GmlFill(IdentifiedObject):
         for x in self._GmlPolygonSymbols:
             x.GmlFill = None
         for y in value:
-            y._GmlFill = self
-        self._GmlPolygonSymbols = value
+            y.GmlFill = self
 
     GmlPolygonSymbols = property(getGmlPolygonSymbols, setGmlPolygonSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
index f4c7510..7923b47 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
@@ -77,8 +77,7 @@ class GmlFont(IdentifiedObject):
         for x in self._GmlTextSymbols:
             x.GmlFont = None
         for y in value:
-            y._GmlFont = self
-        self._GmlTextSymbols = value
+            y.GmlFont = self
 
     GmlTextSymbols = property(getGmlTextSymbols, setGmlTextSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
index a0dfcc7..a8eb787 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
@@ -108,8 +108,7 @@ class GmlGraphic(IdentifiedObject):
         for x in self._GmlPointSymbols:
             x.GmlGraphic = None
         for y in value:
-            y._GmlGraphic = self
-        self._GmlPointSymbols = value
+            y.GmlGraphic = self
 
     GmlPointSymbols = property(getGmlPointSymbols, setGmlPointSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlHalo.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlHalo.py
index 5b130bc..6ed49d1 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlHalo.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlHalo.py
@@ -57,8 +57,7 @@ class GmlHalo(IdentifiedObject):
         for x in self._GmlTextSymbols:
             x.GmlHalo = None
         for y in value:
-            y._GmlHalo = self
-        self._GmlTextSymbols = value
+            y.GmlHalo = self
 
     GmlTextSymbols = property(getGmlTextSymbols, setGmlTextSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelPlacement.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelPlacement.py
index c83aab9..f7db42f 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelPlacement.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelPlacement.py
@@ -77,8 +77,7 @@ class GmlLabelPlacement(IdentifiedObject):
         for x in self._GmlTextSymbols:
             x.GmlLabelPlacement = None
         for y in value:
-            y._GmlLabelPlacement = self
-        self._GmlTextSymbols = value
+            y.GmlLabelPlacement = self
 
     GmlTextSymbols = property(getGmlTextSymbols, setGmlTextSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelStyle.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelStyle.py
index 6dba29d..2ed9d5c 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelStyle.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlLabelStyle.py
@@ -69,8 +69,7 @@ class GmlLabelStyle(IdentifiedObject):
         for x in self._GmlTopologyStyles:
             x.GmlLableStyle = None
         for y in value:
-            y._GmlLableStyle = self
-        self._GmlTopologyStyles = value
+            y.GmlLableStyle = self
 
     GmlTopologyStyles = property(getGmlTopologyStyles, setGmlTopologyStyles)
 
@@ -90,8 +89,7 @@ class GmlLabelStyle(IdentifiedObject):
         for x in self._GmlGeometryStyles:
             x.GmlLabelStyle = None
         for y in value:
-            y._GmlLabelStyle = self
-        self._GmlGeometryStyles = value
+            y.GmlLabelStyle = self
 
     GmlGeometryStyles = property(getGmlGeometryStyles, setGmlGeometryStyles)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
index 41765d0..e9170f8 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
@@ -100,8 +100,7 @@ class GmlObservation(Element):
         for x in self._ChangeItems:
             x.GmlObservation = None
         for y in value:
-            y._GmlObservation = self
-        self._ChangeItems = value
+            y.GmlObservation = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
@@ -121,8 +120,7 @@ class GmlObservation(Element):
         for x in self._GmlValues:
             x.GmlObservation = None
         for y in value:
-            y._GmlObservation = self
-        self._GmlValues = value
+            y.GmlObservation = self
 
     GmlValues = property(getGmlValues, setGmlValues)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
index f31c07b..9e3d4f1 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
@@ -53,8 +53,7 @@ class GmlSelector(IdentifiedObject):
         for x in self._ChangeItems:
             x.GmlSelector = None
         for y in value:
-            y._GmlSelector = self
-        self._ChangeItems = value
+            y.GmlSelector = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
index a182332..7e020db 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
@@ -109,8 +109,7 @@ class GmlStroke(IdentifiedObject):
         for x in self._GmlPolygonSymbols:
             x.GmlStroke = None
         for y in value:
-            y._GmlStroke = self
-        self._GmlPolygonSymbols = value
+            y.GmlStroke = self
 
     GmlPolygonSymbols = property(getGmlPolygonSymbols, setGmlPolygonSymbols)
 
@@ -184,8 +183,7 @@ class GmlStroke(IdentifiedObject):
         for x in self._GmlLineSymbols:
             x.GmlStroke = None
         for y in value:
-            y._GmlStroke = self
-        self._GmlLineSymbols = value
+            y.GmlStroke = self
 
     GmlLineSymbols = property(getGmlLineSymbols, setGmlLineSymbols)
 
diff --git a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
index 169387a..499d092 100644
--- a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
+++ b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
@@ -104,8 +104,7 @@ class LoadMgmtFunction(EndDeviceFunction):
         for x in self._LoadMgmtRecords:
             x.LoadMgmtFunction = None
         for y in value:
-            y._LoadMgmtFunction = self
-        self._LoadMgmtRecords = value
+            y.LoadMgmtFunction = self
 
     LoadMgmtRecords = property(getLoadMgmtRecords, setLoadMgmtRecords)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
index 1506c9c..4944030 100644
--- a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
+++ b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
@@ -91,8 +91,7 @@ class LandProperty(IdentifiedObject):
         for x in self._LocationGrants:
             x.LandProperty = None
         for y in value:
-            y._LandProperty = self
-        self._LocationGrants = value
+            y.LandProperty = self
 
     LocationGrants = property(getLocationGrants, setLocationGrants)
 
@@ -112,8 +111,7 @@ class LandProperty(IdentifiedObject):
         for x in self._ErpSiteLevelDatas:
             x.LandProperty = None
         for y in value:
-            y._LandProperty = self
-        self._ErpSiteLevelDatas = value
+            y.LandProperty = self
 
     ErpSiteLevelDatas = property(getErpSiteLevelDatas, setErpSiteLevelDatas)
 
@@ -133,8 +131,7 @@ class LandProperty(IdentifiedObject):
         for x in self._ErpPersonRoles:
             x.LandProperty = None
         for y in value:
-            y._LandProperty = self
-        self._ErpPersonRoles = value
+            y.LandProperty = self
 
     ErpPersonRoles = property(getErpPersonRoles, setErpPersonRoles)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/Route.py b/CIM15/IEC61970/Informative/InfLocations/Route.py
index a7e7b3f..d358b0b 100644
--- a/CIM15/IEC61970/Informative/InfLocations/Route.py
+++ b/CIM15/IEC61970/Informative/InfLocations/Route.py
@@ -60,8 +60,7 @@ class Route(IdentifiedObject):
         for x in self._Crews:
             x.Route = None
         for y in value:
-            y._Route = self
-        self._Crews = value
+            y.Route = self
 
     Crews = property(getCrews, setCrews)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/CallBack.py b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
index b55eefc..9b5d925 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CallBack.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
@@ -80,8 +80,7 @@ class CallBack(IdentifiedObject):
         for x in self._Appointments:
             x.CallBack = None
         for y in value:
-            y._CallBack = self
-        self._Appointments = value
+            y.CallBack = self
 
     Appointments = property(getAppointments, setAppointments)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
index f7565c9..49e59f2 100644
--- a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
@@ -87,8 +87,7 @@ class ChangeSet(IdentifiedObject):
         for x in self._ChangeItems:
             x.ChangeSet = None
         for y in value:
-            y._ChangeSet = self
-        self._ChangeItems = value
+            y.ChangeSet = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
index a4d0d76..cf72366 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
@@ -57,8 +57,7 @@ class CircuitSection(IdentifiedObject):
         for x in self._ConductorAssets:
             x.CircuitSection = None
         for y in value:
-            y._CircuitSection = self
-        self._ConductorAssets = value
+            y.CircuitSection = self
 
     ConductorAssets = property(getConductorAssets, setConductorAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
index c55e4ce..9e27ecd 100644
--- a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
@@ -56,8 +56,7 @@ class IncidentRecord(Document):
         for x in self._TroubleTickets:
             x.IncidentRecord = None
         for y in value:
-            y._IncidentRecord = self
-        self._TroubleTickets = value
+            y.IncidentRecord = self
 
     TroubleTickets = property(getTroubleTickets, setTroubleTickets)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
index be829d3..04f1f32 100644
--- a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
@@ -97,8 +97,7 @@ class NetworkDataSet(IdentifiedObject):
         for x in self._ChangeItems:
             x.NetworkDataSet = None
         for y in value:
-            y._NetworkDataSet = self
-        self._ChangeItems = value
+            y.NetworkDataSet = self
 
     ChangeItems = property(getChangeItems, setChangeItems)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
index 5b30595..31364cc 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
@@ -120,8 +120,7 @@ class OutageRecord(Document):
         for x in self._OutageSteps:
             x.OutageRecord = None
         for y in value:
-            y._OutageRecord = self
-        self._OutageSteps = value
+            y.OutageRecord = self
 
     OutageSteps = property(getOutageSteps, setOutageSteps)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
index 7031b43..1430f26 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
@@ -145,8 +145,7 @@ class OutageStep(IdentifiedObject):
         for x in self._ConductingEquipmentRoles:
             x.OutageStep = None
         for y in value:
-            y._OutageStep = self
-        self._ConductingEquipmentRoles = value
+            y.OutageStep = self
 
     ConductingEquipmentRoles = property(getConductingEquipmentRoles, setConductingEquipmentRoles)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/PlannedOutage.py b/CIM15/IEC61970/Informative/InfOperations/PlannedOutage.py
index 4c27137..acc35b8 100644
--- a/CIM15/IEC61970/Informative/InfOperations/PlannedOutage.py
+++ b/CIM15/IEC61970/Informative/InfOperations/PlannedOutage.py
@@ -58,8 +58,7 @@ class PlannedOutage(Document):
         for x in self._CustomerDatas:
             x.PlannedOutage = None
         for y in value:
-            y._PlannedOutage = self
-        self._CustomerDatas = value
+            y.PlannedOutage = self
 
     CustomerDatas = property(getCustomerDatas, setCustomerDatas)
 
@@ -79,8 +78,7 @@ class PlannedOutage(Document):
         for x in self._OutageSchedules:
             x.PlannedOutage = None
         for y in value:
-            y._PlannedOutage = self
-        self._OutageSchedules = value
+            y.PlannedOutage = self
 
     OutageSchedules = property(getOutageSchedules, setOutageSchedules)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/SafetyDocument.py b/CIM15/IEC61970/Informative/InfOperations/SafetyDocument.py
index c0a41d1..62d6a72 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SafetyDocument.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SafetyDocument.py
@@ -57,8 +57,7 @@ class SafetyDocument(Document):
         for x in self._ClearanceTags:
             x.SafetyDocument = None
         for y in value:
-            y._SafetyDocument = self
-        self._ClearanceTags = value
+            y.SafetyDocument = self
 
     ClearanceTags = property(getClearanceTags, setClearanceTags)
 
@@ -78,8 +77,7 @@ class SafetyDocument(Document):
         for x in self._ScheduleSteps:
             x.SafetyDocument = None
         for y in value:
-            y._SafetyDocument = self
-        self._ScheduleSteps = value
+            y.SafetyDocument = self
 
     ScheduleSteps = property(getScheduleSteps, setScheduleSteps)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
index d27df3d..d41e642 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
@@ -64,8 +64,7 @@ class SwitchingSchedule(Document):
         for x in self._ScheduleSteps:
             x.SwitchingSchedule = None
         for y in value:
-            y._SwitchingSchedule = self
-        self._ScheduleSteps = value
+            y.SwitchingSchedule = self
 
     ScheduleSteps = property(getScheduleSteps, setScheduleSteps)
 
diff --git a/CIM15/IEC61970/Informative/InfTypeAsset/TypeAssetCatalogue.py b/CIM15/IEC61970/Informative/InfTypeAsset/TypeAssetCatalogue.py
index 5fd068e..323e65e 100644
--- a/CIM15/IEC61970/Informative/InfTypeAsset/TypeAssetCatalogue.py
+++ b/CIM15/IEC61970/Informative/InfTypeAsset/TypeAssetCatalogue.py
@@ -52,8 +52,7 @@ class TypeAssetCatalogue(IdentifiedObject):
         for x in self._TypeAssets:
             x.TypeAssetCatalogue = None
         for y in value:
-            y._TypeAssetCatalogue = self
-        self._TypeAssets = value
+            y.TypeAssetCatalogue = self
 
     TypeAssets = property(getTypeAssets, setTypeAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/BusinessCase.py b/CIM15/IEC61970/Informative/InfWork/BusinessCase.py
index 671a683..e3c4049 100644
--- a/CIM15/IEC61970/Informative/InfWork/BusinessCase.py
+++ b/CIM15/IEC61970/Informative/InfWork/BusinessCase.py
@@ -57,8 +57,7 @@ class BusinessCase(Document):
         for x in self._Projects:
             x.BusinessCase = None
         for y in value:
-            y._BusinessCase = self
-        self._Projects = value
+            y.BusinessCase = self
 
     Projects = property(getProjects, setProjects)
 
@@ -78,8 +77,7 @@ class BusinessCase(Document):
         for x in self._Works:
             x.BusinessCase = None
         for y in value:
-            y._BusinessCase = self
-        self._Works = value
+            y.BusinessCase = self
 
     Works = property(getWorks, setWorks)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUAllowableAction.py b/CIM15/IEC61970/Informative/InfWork/CUAllowableAction.py
index 6404373..2296b44 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUAllowableAction.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUAllowableAction.py
@@ -52,8 +52,7 @@ class CUAllowableAction(IdentifiedObject):
         for x in self._CompatibleUnits:
             x.CUAllowableAction = None
         for y in value:
-            y._CUAllowableAction = self
-        self._CompatibleUnits = value
+            y.CUAllowableAction = self
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUGroup.py b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
index cac6890..2784fbd 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUGroup.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
@@ -64,8 +64,7 @@ class CUGroup(IdentifiedObject):
         for x in self._CompatibleUnits:
             x.CUGroup = None
         for y in value:
-            y._CUGroup = self
-        self._CompatibleUnits = value
+            y.CUGroup = self
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CULaborCode.py b/CIM15/IEC61970/Informative/InfWork/CULaborCode.py
index 716a094..7a80408 100644
--- a/CIM15/IEC61970/Informative/InfWork/CULaborCode.py
+++ b/CIM15/IEC61970/Informative/InfWork/CULaborCode.py
@@ -56,8 +56,7 @@ class CULaborCode(IdentifiedObject):
         for x in self._CULaborItems:
             x.CULaborCode = None
         for y in value:
-            y._CULaborCode = self
-        self._CULaborItems = value
+            y.CULaborCode = self
 
     CULaborItems = property(getCULaborItems, setCULaborItems)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CostType.py b/CIM15/IEC61970/Informative/InfWork/CostType.py
index b1aff68..82beb9b 100644
--- a/CIM15/IEC61970/Informative/InfWork/CostType.py
+++ b/CIM15/IEC61970/Informative/InfWork/CostType.py
@@ -127,8 +127,7 @@ class CostType(IdentifiedObject):
         for x in self._ChildCostTypes:
             x.ParentCostType = None
         for y in value:
-            y._ParentCostType = self
-        self._ChildCostTypes = value
+            y.ParentCostType = self
 
     ChildCostTypes = property(getChildCostTypes, setChildCostTypes)
 
@@ -148,8 +147,7 @@ class CostType(IdentifiedObject):
         for x in self._WorkCostDetails:
             x.CostType = None
         for y in value:
-            y._CostType = self
-        self._WorkCostDetails = value
+            y.CostType = self
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
@@ -169,8 +167,7 @@ class CostType(IdentifiedObject):
         for x in self._CompatibleUnits:
             x.CostType = None
         for y in value:
-            y._CostType = self
-        self._CompatibleUnits = value
+            y.CostType = self
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Crew.py b/CIM15/IEC61970/Informative/InfWork/Crew.py
index ec9a3ac..95c1b14 100644
--- a/CIM15/IEC61970/Informative/InfWork/Crew.py
+++ b/CIM15/IEC61970/Informative/InfWork/Crew.py
@@ -101,8 +101,7 @@ class Crew(IdentifiedObject):
         for x in self._Tools:
             x.Crew = None
         for y in value:
-            y._Crew = self
-        self._Tools = value
+            y.Crew = self
 
     Tools = property(getTools, setTools)
 
@@ -166,8 +165,7 @@ class Crew(IdentifiedObject):
         for x in self._Capabilities:
             x.Crew = None
         for y in value:
-            y._Crew = self
-        self._Capabilities = value
+            y.Crew = self
 
     Capabilities = property(getCapabilities, setCapabilities)
 
@@ -242,8 +240,7 @@ class Crew(IdentifiedObject):
         for x in self._WorkEquipmentAssets:
             x.Crew = None
         for y in value:
-            y._Crew = self
-        self._WorkEquipmentAssets = value
+            y.Crew = self
 
     WorkEquipmentAssets = property(getWorkEquipmentAssets, setWorkEquipmentAssets)
 
@@ -400,8 +397,7 @@ class Crew(IdentifiedObject):
         for x in self._Vehicles:
             x.Crew = None
         for y in value:
-            y._Crew = self
-        self._Vehicles = value
+            y.Crew = self
 
     Vehicles = property(getVehicles, setVehicles)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Design.py b/CIM15/IEC61970/Informative/InfWork/Design.py
index 5717888..9951db2 100644
--- a/CIM15/IEC61970/Informative/InfWork/Design.py
+++ b/CIM15/IEC61970/Informative/InfWork/Design.py
@@ -116,8 +116,7 @@ class Design(Document):
         for x in self._WorkCostDetails:
             x.Design = None
         for y in value:
-            y._Design = self
-        self._WorkCostDetails = value
+            y.Design = self
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
@@ -164,8 +163,7 @@ class Design(Document):
         for x in self._WorkTasks:
             x.Design = None
         for y in value:
-            y._Design = self
-        self._WorkTasks = value
+            y.Design = self
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
@@ -185,8 +183,7 @@ class Design(Document):
         for x in self._ErpBOMs:
             x.Design = None
         for y in value:
-            y._Design = self
-        self._ErpBOMs = value
+            y.Design = self
 
     ErpBOMs = property(getErpBOMs, setErpBOMs)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
index e8d89e4..a2ebd0b 100644
--- a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
+++ b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
@@ -86,8 +86,7 @@ class DesignLocation(IdentifiedObject):
         for x in self._MaterialItems:
             x.DesignLocation = None
         for y in value:
-            y._DesignLocation = self
-        self._MaterialItems = value
+            y.DesignLocation = self
 
     MaterialItems = property(getMaterialItems, setMaterialItems)
 
@@ -134,8 +133,7 @@ class DesignLocation(IdentifiedObject):
         for x in self._DesignLocationCUs:
             x.DesignLocation = None
         for y in value:
-            y._DesignLocation = self
-        self._DesignLocationCUs = value
+            y.DesignLocation = self
 
     DesignLocationCUs = property(getDesignLocationCUs, setDesignLocationCUs)
 
@@ -209,8 +207,7 @@ class DesignLocation(IdentifiedObject):
         for x in self._MiscCostItems:
             x.DesignLocation = None
         for y in value:
-            y._DesignLocation = self
-        self._MiscCostItems = value
+            y.DesignLocation = self
 
     MiscCostItems = property(getMiscCostItems, setMiscCostItems)
 
@@ -230,8 +227,7 @@ class DesignLocation(IdentifiedObject):
         for x in self._ErpBomItemDatas:
             x.DesignLocation = None
         for y in value:
-            y._DesignLocation = self
-        self._ErpBomItemDatas = value
+            y.DesignLocation = self
 
     ErpBomItemDatas = property(getErpBomItemDatas, setErpBomItemDatas)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/InspectionDataSet.py b/CIM15/IEC61970/Informative/InfWork/InspectionDataSet.py
index fc88cd9..e2daddb 100644
--- a/CIM15/IEC61970/Informative/InfWork/InspectionDataSet.py
+++ b/CIM15/IEC61970/Informative/InfWork/InspectionDataSet.py
@@ -53,8 +53,7 @@ class InspectionDataSet(ProcedureDataSet):
         for x in self._AccordingToSchedules:
             x.ForInspectionDataSet = None
         for y in value:
-            y._ForInspectionDataSet = self
-        self._AccordingToSchedules = value
+            y.ForInspectionDataSet = self
 
     AccordingToSchedules = property(getAccordingToSchedules, setAccordingToSchedules)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
index 8132126..dd09634 100644
--- a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
@@ -108,8 +108,7 @@ class MaterialItem(IdentifiedObject):
         for x in self._ErpInventoryCounts:
             x.MaterialItem = None
         for y in value:
-            y._MaterialItem = self
-        self._ErpInventoryCounts = value
+            y.MaterialItem = self
 
     ErpInventoryCounts = property(getErpInventoryCounts, setErpInventoryCounts)
 
@@ -129,8 +128,7 @@ class MaterialItem(IdentifiedObject):
         for x in self._Usages:
             x.MaterialItem = None
         for y in value:
-            y._MaterialItem = self
-        self._Usages = value
+            y.MaterialItem = self
 
     Usages = property(getUsages, setUsages)
 
@@ -150,8 +148,7 @@ class MaterialItem(IdentifiedObject):
         for x in self._ErpPOLineItems:
             x.MaterialItem = None
         for y in value:
-            y._MaterialItem = self
-        self._ErpPOLineItems = value
+            y.MaterialItem = self
 
     ErpPOLineItems = property(getErpPOLineItems, setErpPOLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/OneCallRequest.py b/CIM15/IEC61970/Informative/InfWork/OneCallRequest.py
index 5db674e..7d70723 100644
--- a/CIM15/IEC61970/Informative/InfWork/OneCallRequest.py
+++ b/CIM15/IEC61970/Informative/InfWork/OneCallRequest.py
@@ -61,8 +61,7 @@ class OneCallRequest(Document):
         for x in self._WorkLocations:
             x.OneCallRequest = None
         for y in value:
-            y._OneCallRequest = self
-        self._WorkLocations = value
+            y.OneCallRequest = self
 
     WorkLocations = property(getWorkLocations, setWorkLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/OverheadCost.py b/CIM15/IEC61970/Informative/InfWork/OverheadCost.py
index c7d5cf4..eae769d 100644
--- a/CIM15/IEC61970/Informative/InfWork/OverheadCost.py
+++ b/CIM15/IEC61970/Informative/InfWork/OverheadCost.py
@@ -66,8 +66,7 @@ class OverheadCost(IdentifiedObject):
         for x in self._WorkCostDetails:
             x.OverheadCost = None
         for y in value:
-            y._OverheadCost = self
-        self._WorkCostDetails = value
+            y.OverheadCost = self
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
@@ -87,8 +86,7 @@ class OverheadCost(IdentifiedObject):
         for x in self._WorkTasks:
             x.OverheadCost = None
         for y in value:
-            y._OverheadCost = self
-        self._WorkTasks = value
+            y.OverheadCost = self
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Project.py b/CIM15/IEC61970/Informative/InfWork/Project.py
index cbfcde2..b50dfef 100644
--- a/CIM15/IEC61970/Informative/InfWork/Project.py
+++ b/CIM15/IEC61970/Informative/InfWork/Project.py
@@ -89,8 +89,7 @@ class Project(Document):
         for x in self._SubProjects:
             x.ParentProject = None
         for y in value:
-            y._ParentProject = self
-        self._SubProjects = value
+            y.ParentProject = self
 
     SubProjects = property(getSubProjects, setSubProjects)
 
@@ -153,8 +152,7 @@ class Project(Document):
         for x in self._Works:
             x.Project = None
         for y in value:
-            y._Project = self
-        self._Works = value
+            y.Project = self
 
     Works = property(getWorks, setWorks)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
index b855791..25124ea 100644
--- a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
+++ b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
@@ -74,8 +74,7 @@ class PropertyUnit(IdentifiedObject):
         for x in self._CompatibleUnits:
             x.PropertyUnit = None
         for y in value:
-            y._PropertyUnit = self
-        self._CompatibleUnits = value
+            y.PropertyUnit = self
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Request.py b/CIM15/IEC61970/Informative/InfWork/Request.py
index 926a485..8981e54 100644
--- a/CIM15/IEC61970/Informative/InfWork/Request.py
+++ b/CIM15/IEC61970/Informative/InfWork/Request.py
@@ -131,8 +131,7 @@ class Request(Document):
         for x in self._Works:
             x.Request = None
         for y in value:
-            y._Request = self
-        self._Works = value
+            y.Request = self
 
     Works = property(getWorks, setWorks)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/TypeMaterial.py b/CIM15/IEC61970/Informative/InfWork/TypeMaterial.py
index 2a02a46..45e57ee 100644
--- a/CIM15/IEC61970/Informative/InfWork/TypeMaterial.py
+++ b/CIM15/IEC61970/Informative/InfWork/TypeMaterial.py
@@ -77,8 +77,7 @@ class TypeMaterial(Document):
         for x in self._ErpIssueInventories:
             x.TypeMaterial = None
         for y in value:
-            y._TypeMaterial = self
-        self._ErpIssueInventories = value
+            y.TypeMaterial = self
 
     ErpIssueInventories = property(getErpIssueInventories, setErpIssueInventories)
 
@@ -98,8 +97,7 @@ class TypeMaterial(Document):
         for x in self._MaterialItems:
             x.TypeMaterial = None
         for y in value:
-            y._TypeMaterial = self
-        self._MaterialItems = value
+            y.TypeMaterial = self
 
     MaterialItems = property(getMaterialItems, setMaterialItems)
 
@@ -119,8 +117,7 @@ class TypeMaterial(Document):
         for x in self._CUMaterialItems:
             x.TypeMaterial = None
         for y in value:
-            y._TypeMaterial = self
-        self._CUMaterialItems = value
+            y.TypeMaterial = self
 
     CUMaterialItems = property(getCUMaterialItems, setCUMaterialItems)
 
@@ -140,8 +137,7 @@ class TypeMaterial(Document):
         for x in self._ErpReqLineItems:
             x.TypeMaterial = None
         for y in value:
-            y._TypeMaterial = self
-        self._ErpReqLineItems = value
+            y.TypeMaterial = self
 
     ErpReqLineItems = property(getErpReqLineItems, setErpReqLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
index 7efc4cc..c6b3db3 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
@@ -172,8 +172,7 @@ class WorkCostDetail(Document):
         for x in self._MiscCostItems:
             x.WorkCostDetail = None
         for y in value:
-            y._WorkCostDetail = self
-        self._MiscCostItems = value
+            y.WorkCostDetail = self
 
     MiscCostItems = property(getMiscCostItems, setMiscCostItems)
 
@@ -251,8 +250,7 @@ class WorkCostDetail(Document):
         for x in self._LaborItems:
             x.WorkCostDetail = None
         for y in value:
-            y._WorkCostDetail = self
-        self._LaborItems = value
+            y.WorkCostDetail = self
 
     LaborItems = property(getLaborItems, setLaborItems)
 
@@ -272,8 +270,7 @@ class WorkCostDetail(Document):
         for x in self._MaterialItems:
             x.WorkCostDetail = None
         for y in value:
-            y._WorkCostDetail = self
-        self._MaterialItems = value
+            y.WorkCostDetail = self
 
     MaterialItems = property(getMaterialItems, setMaterialItems)
 
@@ -293,8 +290,7 @@ class WorkCostDetail(Document):
         for x in self._EquipmentItems:
             x.WorkCostDetail = None
         for y in value:
-            y._WorkCostDetail = self
-        self._EquipmentItems = value
+            y.WorkCostDetail = self
 
     EquipmentItems = property(getEquipmentItems, setEquipmentItems)
 
@@ -314,8 +310,7 @@ class WorkCostDetail(Document):
         for x in self._ContractorItems:
             x.WorkCostDetail = None
         for y in value:
-            y._WorkCostDetail = self
-        self._ContractorItems = value
+            y.WorkCostDetail = self
 
     ContractorItems = property(getContractorItems, setContractorItems)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkFlowStep.py b/CIM15/IEC61970/Informative/InfWork/WorkFlowStep.py
index 44f84ec..762361d 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkFlowStep.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkFlowStep.py
@@ -60,8 +60,7 @@ class WorkFlowStep(IdentifiedObject):
         for x in self._WorkTasks:
             x.WorkFlowStep = None
         for y in value:
-            y._WorkFlowStep = self
-        self._WorkTasks = value
+            y.WorkFlowStep = self
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkTask.py b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
index 38f799c..ea4b11d 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkTask.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
@@ -121,8 +121,7 @@ class WorkTask(Document):
         for x in self._EquipmentItems:
             x.WorkTask = None
         for y in value:
-            y._WorkTask = self
-        self._EquipmentItems = value
+            y.WorkTask = self
 
     EquipmentItems = property(getEquipmentItems, setEquipmentItems)
 
@@ -142,8 +141,7 @@ class WorkTask(Document):
         for x in self._Usages:
             x.WorkTask = None
         for y in value:
-            y._WorkTask = self
-        self._Usages = value
+            y.WorkTask = self
 
     Usages = property(getUsages, setUsages)
 
@@ -163,8 +161,7 @@ class WorkTask(Document):
         for x in self._MiscCostItems:
             x.WorkTask = None
         for y in value:
-            y._WorkTask = self
-        self._MiscCostItems = value
+            y.WorkTask = self
 
     MiscCostItems = property(getMiscCostItems, setMiscCostItems)
 
@@ -271,8 +268,7 @@ class WorkTask(Document):
         for x in self._ContractorItems:
             x.WorkTask = None
         for y in value:
-            y._WorkTask = self
-        self._ContractorItems = value
+            y.WorkTask = self
 
     ContractorItems = property(getContractorItems, setContractorItems)
 
@@ -292,8 +288,7 @@ class WorkTask(Document):
         for x in self._SwitchingSchedules:
             x.WorkTask = None
         for y in value:
-            y._WorkTask = self
-        self._SwitchingSchedules = value
+            y.WorkTask = self
 
     SwitchingSchedules = property(getSwitchingSchedules, setSwitchingSchedules)
 
@@ -399,8 +394,7 @@ class WorkTask(Document):
         for x in self._WorkCostDetails:
             x.WorkTask = None
         for y in value:
-            y._WorkTask = self
-        self._WorkCostDetails = value
+            y.WorkTask = self
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
@@ -420,8 +414,7 @@ class WorkTask(Document):
         for x in self._Assets:
             x.WorkTask = None
         for y in value:
-            y._WorkTask = self
-        self._Assets = value
+            y.WorkTask = self
 
     Assets = property(getAssets, setAssets)
 
@@ -441,8 +434,7 @@ class WorkTask(Document):
         for x in self._LaborItems:
             x.WorkTask = None
         for y in value:
-            y._WorkTask = self
-        self._LaborItems = value
+            y.WorkTask = self
 
     LaborItems = property(getLaborItems, setLaborItems)
 
@@ -462,8 +454,7 @@ class WorkTask(Document):
         for x in self._MaterialItems:
             x.WorkTask = None
         for y in value:
-            y._WorkTask = self
-        self._MaterialItems = value
+            y.WorkTask = self
 
     MaterialItems = property(getMaterialItems, setMaterialItems)
 
diff --git a/CIM15/IEC61970/LoadModel/ConformLoadGroup.py b/CIM15/IEC61970/LoadModel/ConformLoadGroup.py
index c45331b..0ebc104 100644
--- a/CIM15/IEC61970/LoadModel/ConformLoadGroup.py
+++ b/CIM15/IEC61970/LoadModel/ConformLoadGroup.py
@@ -54,8 +54,7 @@ class ConformLoadGroup(LoadGroup):
         for x in self._ConformLoadSchedules:
             x.ConformLoadGroup = None
         for y in value:
-            y._ConformLoadGroup = self
-        self._ConformLoadSchedules = value
+            y.ConformLoadGroup = self
 
     ConformLoadSchedules = property(getConformLoadSchedules, setConformLoadSchedules)
 
@@ -76,8 +75,7 @@ class ConformLoadGroup(LoadGroup):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM15/IEC61970/LoadModel/DayType.py b/CIM15/IEC61970/LoadModel/DayType.py
index c0bf37f..6fbd540 100644
--- a/CIM15/IEC61970/LoadModel/DayType.py
+++ b/CIM15/IEC61970/LoadModel/DayType.py
@@ -50,8 +50,7 @@ class DayType(IdentifiedObject):
         for x in self._SeasonDayTypeSchedules:
             x.DayType = None
         for y in value:
-            y._DayType = self
-        self._SeasonDayTypeSchedules = value
+            y.DayType = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM15/IEC61970/LoadModel/LoadArea.py b/CIM15/IEC61970/LoadModel/LoadArea.py
index b4e4a91..8a453e7 100644
--- a/CIM15/IEC61970/LoadModel/LoadArea.py
+++ b/CIM15/IEC61970/LoadModel/LoadArea.py
@@ -50,8 +50,7 @@ class LoadArea(EnergyArea):
         for x in self._SubLoadAreas:
             x.LoadArea = None
         for y in value:
-            y._LoadArea = self
-        self._SubLoadAreas = value
+            y.LoadArea = self
 
     SubLoadAreas = property(getSubLoadAreas, setSubLoadAreas)
 
diff --git a/CIM15/IEC61970/LoadModel/LoadResponseCharacteristic.py b/CIM15/IEC61970/LoadModel/LoadResponseCharacteristic.py
index aa1635e..6b8118c 100644
--- a/CIM15/IEC61970/LoadModel/LoadResponseCharacteristic.py
+++ b/CIM15/IEC61970/LoadModel/LoadResponseCharacteristic.py
@@ -94,8 +94,7 @@ class LoadResponseCharacteristic(IdentifiedObject):
         for x in self._EnergyConsumer:
             x.LoadResponse = None
         for y in value:
-            y._LoadResponse = self
-        self._EnergyConsumer = value
+            y.LoadResponse = self
 
     EnergyConsumer = property(getEnergyConsumer, setEnergyConsumer)
 
diff --git a/CIM15/IEC61970/LoadModel/NonConformLoadGroup.py b/CIM15/IEC61970/LoadModel/NonConformLoadGroup.py
index 4407e27..bf57c10 100644
--- a/CIM15/IEC61970/LoadModel/NonConformLoadGroup.py
+++ b/CIM15/IEC61970/LoadModel/NonConformLoadGroup.py
@@ -54,8 +54,7 @@ class NonConformLoadGroup(LoadGroup):
         for x in self._NonConformLoadSchedules:
             x.NonConformLoadGroup = None
         for y in value:
-            y._NonConformLoadGroup = self
-        self._NonConformLoadSchedules = value
+            y.NonConformLoadGroup = self
 
     NonConformLoadSchedules = property(getNonConformLoadSchedules, setNonConformLoadSchedules)
 
@@ -76,8 +75,7 @@ class NonConformLoadGroup(LoadGroup):
         for x in self._EnergyConsumers:
             x.LoadGroup = None
         for y in value:
-            y._LoadGroup = self
-        self._EnergyConsumers = value
+            y.LoadGroup = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM15/IEC61970/LoadModel/PowerCutZone.py b/CIM15/IEC61970/LoadModel/PowerCutZone.py
index c2d5c1b..cb44b29 100644
--- a/CIM15/IEC61970/LoadModel/PowerCutZone.py
+++ b/CIM15/IEC61970/LoadModel/PowerCutZone.py
@@ -58,8 +58,7 @@ class PowerCutZone(PowerSystemResource):
         for x in self._EnergyConsumers:
             x.PowerCutZone = None
         for y in value:
-            y._PowerCutZone = self
-        self._EnergyConsumers = value
+            y.PowerCutZone = self
 
     EnergyConsumers = property(getEnergyConsumers, setEnergyConsumers)
 
diff --git a/CIM15/IEC61970/LoadModel/Season.py b/CIM15/IEC61970/LoadModel/Season.py
index 12ab6e5..dd41298 100644
--- a/CIM15/IEC61970/LoadModel/Season.py
+++ b/CIM15/IEC61970/LoadModel/Season.py
@@ -62,8 +62,7 @@ class Season(Element):
         for x in self._SeasonDayTypeSchedules:
             x.Season = None
         for y in value:
-            y._Season = self
-        self._SeasonDayTypeSchedules = value
+            y.Season = self
 
     SeasonDayTypeSchedules = property(getSeasonDayTypeSchedules, setSeasonDayTypeSchedules)
 
diff --git a/CIM15/IEC61970/LoadModel/SubLoadArea.py b/CIM15/IEC61970/LoadModel/SubLoadArea.py
index 0fdefcc..8da4037 100644
--- a/CIM15/IEC61970/LoadModel/SubLoadArea.py
+++ b/CIM15/IEC61970/LoadModel/SubLoadArea.py
@@ -54,8 +54,7 @@ class SubLoadArea(EnergyArea):
         for x in self._LoadGroups:
             x.SubLoadArea = None
         for y in value:
-            y._SubLoadArea = self
-        self._LoadGroups = value
+            y.SubLoadArea = self
 
     LoadGroups = property(getLoadGroups, setLoadGroups)
 
diff --git a/CIM15/IEC61970/Meas/Accumulator.py b/CIM15/IEC61970/Meas/Accumulator.py
index 7007cc6..933e01d 100644
--- a/CIM15/IEC61970/Meas/Accumulator.py
+++ b/CIM15/IEC61970/Meas/Accumulator.py
@@ -86,8 +86,7 @@ class Accumulator(Measurement):
         for x in self._AccumulatorValues:
             x.Accumulator = None
         for y in value:
-            y._Accumulator = self
-        self._AccumulatorValues = value
+            y.Accumulator = self
 
     AccumulatorValues = property(getAccumulatorValues, setAccumulatorValues)
 
diff --git a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
index 30876d1..5ccd029 100644
--- a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
@@ -54,8 +54,7 @@ class AccumulatorLimitSet(LimitSet):
         for x in self._Limits:
             x.LimitSet = None
         for y in value:
-            y._LimitSet = self
-        self._Limits = value
+            y.LimitSet = self
 
     Limits = property(getLimits, setLimits)
 
diff --git a/CIM15/IEC61970/Meas/Analog.py b/CIM15/IEC61970/Meas/Analog.py
index 65b0acb..262c082 100644
--- a/CIM15/IEC61970/Meas/Analog.py
+++ b/CIM15/IEC61970/Meas/Analog.py
@@ -102,8 +102,7 @@ class Analog(Measurement):
         for x in self._AnalogValues:
             x.Analog = None
         for y in value:
-            y._Analog = self
-        self._AnalogValues = value
+            y.Analog = self
 
     AnalogValues = property(getAnalogValues, setAnalogValues)
 
diff --git a/CIM15/IEC61970/Meas/AnalogLimitSet.py b/CIM15/IEC61970/Meas/AnalogLimitSet.py
index fa5f7c6..e6bd72c 100644
--- a/CIM15/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM15/IEC61970/Meas/AnalogLimitSet.py
@@ -54,8 +54,7 @@ class AnalogLimitSet(LimitSet):
         for x in self._Limits:
             x.LimitSet = None
         for y in value:
-            y._LimitSet = self
-        self._Limits = value
+            y.LimitSet = self
 
     Limits = property(getLimits, setLimits)
 
diff --git a/CIM15/IEC61970/Meas/AnalogValue.py b/CIM15/IEC61970/Meas/AnalogValue.py
index b490fa7..a143224 100644
--- a/CIM15/IEC61970/Meas/AnalogValue.py
+++ b/CIM15/IEC61970/Meas/AnalogValue.py
@@ -62,8 +62,7 @@ class AnalogValue(MeasurementValue):
         for x in self._AltTieMeas:
             x.AnalogValue = None
         for y in value:
-            y._AnalogValue = self
-        self._AltTieMeas = value
+            y.AnalogValue = self
 
     AltTieMeas = property(getAltTieMeas, setAltTieMeas)
 
@@ -101,8 +100,7 @@ class AnalogValue(MeasurementValue):
         for x in self._AltGeneratingUnit:
             x.AnalogValue = None
         for y in value:
-            y._AnalogValue = self
-        self._AltGeneratingUnit = value
+            y.AnalogValue = self
 
     AltGeneratingUnit = property(getAltGeneratingUnit, setAltGeneratingUnit)
 
diff --git a/CIM15/IEC61970/Meas/ControlType.py b/CIM15/IEC61970/Meas/ControlType.py
index cc8ac40..4bc7ca2 100644
--- a/CIM15/IEC61970/Meas/ControlType.py
+++ b/CIM15/IEC61970/Meas/ControlType.py
@@ -50,8 +50,7 @@ class ControlType(IdentifiedObject):
         for x in self._Controls:
             x.ControlType = None
         for y in value:
-            y._ControlType = self
-        self._Controls = value
+            y.ControlType = self
 
     Controls = property(getControls, setControls)
 
diff --git a/CIM15/IEC61970/Meas/Discrete.py b/CIM15/IEC61970/Meas/Discrete.py
index 1c66f7b..e03e14e 100644
--- a/CIM15/IEC61970/Meas/Discrete.py
+++ b/CIM15/IEC61970/Meas/Discrete.py
@@ -86,8 +86,7 @@ class Discrete(Measurement):
         for x in self._DiscreteValues:
             x.Discrete = None
         for y in value:
-            y._Discrete = self
-        self._DiscreteValues = value
+            y.Discrete = self
 
     DiscreteValues = property(getDiscreteValues, setDiscreteValues)
 
diff --git a/CIM15/IEC61970/Meas/MeasurementValue.py b/CIM15/IEC61970/Meas/MeasurementValue.py
index d189d5a..bba217b 100644
--- a/CIM15/IEC61970/Meas/MeasurementValue.py
+++ b/CIM15/IEC61970/Meas/MeasurementValue.py
@@ -77,8 +77,7 @@ class MeasurementValue(IdentifiedObject):
         for x in self._GmlValues:
             x.MeasurementValue = None
         for y in value:
-            y._MeasurementValue = self
-        self._GmlValues = value
+            y.MeasurementValue = self
 
     GmlValues = property(getGmlValues, setGmlValues)
 
diff --git a/CIM15/IEC61970/Meas/MeasurementValueSource.py b/CIM15/IEC61970/Meas/MeasurementValueSource.py
index de0b6d0..ca07a54 100644
--- a/CIM15/IEC61970/Meas/MeasurementValueSource.py
+++ b/CIM15/IEC61970/Meas/MeasurementValueSource.py
@@ -50,8 +50,7 @@ class MeasurementValueSource(IdentifiedObject):
         for x in self._MeasurementValues:
             x.MeasurementValueSource = None
         for y in value:
-            y._MeasurementValueSource = self
-        self._MeasurementValues = value
+            y.MeasurementValueSource = self
 
     MeasurementValues = property(getMeasurementValues, setMeasurementValues)
 
diff --git a/CIM15/IEC61970/Meas/StringMeasurement.py b/CIM15/IEC61970/Meas/StringMeasurement.py
index 573038c..867b1e0 100644
--- a/CIM15/IEC61970/Meas/StringMeasurement.py
+++ b/CIM15/IEC61970/Meas/StringMeasurement.py
@@ -50,8 +50,7 @@ class StringMeasurement(Measurement):
         for x in self._StringMeasurementValues:
             x.StringMeasurement = None
         for y in value:
-            y._StringMeasurement = self
-        self._StringMeasurementValues = value
+            y.StringMeasurement = self
 
     StringMeasurementValues = property(getStringMeasurementValues, setStringMeasurementValues)
 
diff --git a/CIM15/IEC61970/Meas/ValueAliasSet.py b/CIM15/IEC61970/Meas/ValueAliasSet.py
index 59ad59f..bfaf500 100644
--- a/CIM15/IEC61970/Meas/ValueAliasSet.py
+++ b/CIM15/IEC61970/Meas/ValueAliasSet.py
@@ -58,8 +58,7 @@ class ValueAliasSet(IdentifiedObject):
         for x in self._Discretes:
             x.ValueAliasSet = None
         for y in value:
-            y._ValueAliasSet = self
-        self._Discretes = value
+            y.ValueAliasSet = self
 
     Discretes = property(getDiscretes, setDiscretes)
 
@@ -80,8 +79,7 @@ class ValueAliasSet(IdentifiedObject):
         for x in self._Commands:
             x.ValueAliasSet = None
         for y in value:
-            y._ValueAliasSet = self
-        self._Commands = value
+            y.ValueAliasSet = self
 
     Commands = property(getCommands, setCommands)
 
@@ -102,8 +100,7 @@ class ValueAliasSet(IdentifiedObject):
         for x in self._Values:
             x.ValueAliasSet = None
         for y in value:
-            y._ValueAliasSet = self
-        self._Values = value
+            y.ValueAliasSet = self
 
     Values = property(getValues, setValues)
 
diff --git a/CIM15/IEC61970/OperationalLimits/ActivePowerLimitSet.py b/CIM15/IEC61970/OperationalLimits/ActivePowerLimitSet.py
index 7958149..dfee64b 100644
--- a/CIM15/IEC61970/OperationalLimits/ActivePowerLimitSet.py
+++ b/CIM15/IEC61970/OperationalLimits/ActivePowerLimitSet.py
@@ -47,8 +47,7 @@ class ActivePowerLimitSet(OperationalLimitSet):
         for x in self._ActivePowerLimits:
             x.ActivePowerLimitSet = None
         for y in value:
-            y._ActivePowerLimitSet = self
-        self._ActivePowerLimits = value
+            y.ActivePowerLimitSet = self
 
     ActivePowerLimits = property(getActivePowerLimits, setActivePowerLimits)
 
diff --git a/CIM15/IEC61970/OperationalLimits/ApparentPowerLimitSet.py b/CIM15/IEC61970/OperationalLimits/ApparentPowerLimitSet.py
index af83c98..338f0ac 100644
--- a/CIM15/IEC61970/OperationalLimits/ApparentPowerLimitSet.py
+++ b/CIM15/IEC61970/OperationalLimits/ApparentPowerLimitSet.py
@@ -47,8 +47,7 @@ class ApparentPowerLimitSet(OperationalLimitSet):
         for x in self._ApparentPowerLimits:
             x.ApparentPowerLimitSet = None
         for y in value:
-            y._ApparentPowerLimitSet = self
-        self._ApparentPowerLimits = value
+            y.ApparentPowerLimitSet = self
 
     ApparentPowerLimits = property(getApparentPowerLimits, setApparentPowerLimits)
 
diff --git a/CIM15/IEC61970/OperationalLimits/BranchGroup.py b/CIM15/IEC61970/OperationalLimits/BranchGroup.py
index 7b08dc0..c7b8d59 100644
--- a/CIM15/IEC61970/OperationalLimits/BranchGroup.py
+++ b/CIM15/IEC61970/OperationalLimits/BranchGroup.py
@@ -74,8 +74,7 @@ class BranchGroup(IdentifiedObject):
         for x in self._BranchGroupTerminal:
             x.BranchGroup = None
         for y in value:
-            y._BranchGroup = self
-        self._BranchGroupTerminal = value
+            y.BranchGroup = self
 
     BranchGroupTerminal = property(getBranchGroupTerminal, setBranchGroupTerminal)
 
diff --git a/CIM15/IEC61970/OperationalLimits/CurrentLimitSet.py b/CIM15/IEC61970/OperationalLimits/CurrentLimitSet.py
index 767e5c3..6128d41 100644
--- a/CIM15/IEC61970/OperationalLimits/CurrentLimitSet.py
+++ b/CIM15/IEC61970/OperationalLimits/CurrentLimitSet.py
@@ -47,8 +47,7 @@ class CurrentLimitSet(OperationalLimitSet):
         for x in self._CurrentLimits:
             x.CurrentLimitSet = None
         for y in value:
-            y._CurrentLimitSet = self
-        self._CurrentLimits = value
+            y.CurrentLimitSet = self
 
     CurrentLimits = property(getCurrentLimits, setCurrentLimits)
 
diff --git a/CIM15/IEC61970/OperationalLimits/OperationalLimitSet.py b/CIM15/IEC61970/OperationalLimits/OperationalLimitSet.py
index cef4042..9800b2d 100644
--- a/CIM15/IEC61970/OperationalLimits/OperationalLimitSet.py
+++ b/CIM15/IEC61970/OperationalLimits/OperationalLimitSet.py
@@ -71,8 +71,7 @@ class OperationalLimitSet(IdentifiedObject):
         for x in self._OperationalLimitValue:
             x.OperationalLimitSet = None
         for y in value:
-            y._OperationalLimitSet = self
-        self._OperationalLimitValue = value
+            y.OperationalLimitSet = self
 
     OperationalLimitValue = property(getOperationalLimitValue, setOperationalLimitValue)
 
diff --git a/CIM15/IEC61970/OperationalLimits/OperationalLimitType.py b/CIM15/IEC61970/OperationalLimits/OperationalLimitType.py
index 599abc9..8962956 100644
--- a/CIM15/IEC61970/OperationalLimits/OperationalLimitType.py
+++ b/CIM15/IEC61970/OperationalLimits/OperationalLimitType.py
@@ -58,8 +58,7 @@ class OperationalLimitType(IdentifiedObject):
         for x in self._OperationalLimit:
             x.OperationalLimitType = None
         for y in value:
-            y._OperationalLimitType = self
-        self._OperationalLimit = value
+            y.OperationalLimitType = self
 
     OperationalLimit = property(getOperationalLimit, setOperationalLimit)
 
diff --git a/CIM15/IEC61970/OperationalLimits/VoltageLimitSet.py b/CIM15/IEC61970/OperationalLimits/VoltageLimitSet.py
index c4509a5..438b090 100644
--- a/CIM15/IEC61970/OperationalLimits/VoltageLimitSet.py
+++ b/CIM15/IEC61970/OperationalLimits/VoltageLimitSet.py
@@ -47,8 +47,7 @@ class VoltageLimitSet(OperationalLimitSet):
         for x in self._VoltageLimits:
             x.VoltageLimitSet = None
         for y in value:
-            y._VoltageLimitSet = self
-        self._VoltageLimits = value
+            y.VoltageLimitSet = self
 
     VoltageLimits = property(getVoltageLimits, setVoltageLimits)
 
diff --git a/CIM15/IEC61970/Outage/ClearanceTagType.py b/CIM15/IEC61970/Outage/ClearanceTagType.py
index 3e3d46d..01edae8 100644
--- a/CIM15/IEC61970/Outage/ClearanceTagType.py
+++ b/CIM15/IEC61970/Outage/ClearanceTagType.py
@@ -50,8 +50,7 @@ class ClearanceTagType(IdentifiedObject):
         for x in self._ClearanceTags:
             x.ClearanceTagType = None
         for y in value:
-            y._ClearanceTagType = self
-        self._ClearanceTags = value
+            y.ClearanceTagType = self
 
     ClearanceTags = property(getClearanceTags, setClearanceTags)
 
diff --git a/CIM15/IEC61970/Outage/OutageSchedule.py b/CIM15/IEC61970/Outage/OutageSchedule.py
index 92e8d8d..f9f256d 100644
--- a/CIM15/IEC61970/Outage/OutageSchedule.py
+++ b/CIM15/IEC61970/Outage/OutageSchedule.py
@@ -74,8 +74,7 @@ class OutageSchedule(IrregularIntervalSchedule):
         for x in self._SwitchingOperations:
             x.OutageSchedule = None
         for y in value:
-            y._OutageSchedule = self
-        self._SwitchingOperations = value
+            y.OutageSchedule = self
 
     SwitchingOperations = property(getSwitchingOperations, setSwitchingOperations)
 
diff --git a/CIM15/IEC61970/SCADA/RemoteUnit.py b/CIM15/IEC61970/SCADA/RemoteUnit.py
index 45e39a7..1bf2e5f 100644
--- a/CIM15/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM15/IEC61970/SCADA/RemoteUnit.py
@@ -58,8 +58,7 @@ class RemoteUnit(PowerSystemResource):
         for x in self._RemotePoints:
             x.RemoteUnit = None
         for y in value:
-            y._RemoteUnit = self
-        self._RemotePoints = value
+            y.RemoteUnit = self
 
     RemotePoints = property(getRemotePoints, setRemotePoints)
 
diff --git a/CIM15/IEC61970/StateVariables/TopologicalIsland.py b/CIM15/IEC61970/StateVariables/TopologicalIsland.py
index 8d5272e..b55009f 100644
--- a/CIM15/IEC61970/StateVariables/TopologicalIsland.py
+++ b/CIM15/IEC61970/StateVariables/TopologicalIsland.py
@@ -70,8 +70,7 @@ class TopologicalIsland(IdentifiedObject):
         for x in self._TopologicalNodes:
             x.TopologicalIsland = None
         for y in value:
-            y._TopologicalIsland = self
-        self._TopologicalNodes = value
+            y.TopologicalIsland = self
 
     TopologicalNodes = property(getTopologicalNodes, setTopologicalNodes)
 
diff --git a/CIM15/IEC61970/Topology/BusNameMarker.py b/CIM15/IEC61970/Topology/BusNameMarker.py
index 552faf9..7408766 100644
--- a/CIM15/IEC61970/Topology/BusNameMarker.py
+++ b/CIM15/IEC61970/Topology/BusNameMarker.py
@@ -54,8 +54,7 @@ class BusNameMarker(IdentifiedObject):
         for x in self._Terminal:
             x.BusNameMarker = None
         for y in value:
-            y._BusNameMarker = self
-        self._Terminal = value
+            y.BusNameMarker = self
 
     Terminal = property(getTerminal, setTerminal)
 
diff --git a/CIM15/IEC61970/Topology/TopologicalNode.py b/CIM15/IEC61970/Topology/TopologicalNode.py
index ffb3aaa..2fae2c5 100644
--- a/CIM15/IEC61970/Topology/TopologicalNode.py
+++ b/CIM15/IEC61970/Topology/TopologicalNode.py
@@ -135,8 +135,7 @@ class TopologicalNode(IdentifiedObject):
         for x in self._ConnectivityNodes:
             x.TopologicalNode = None
         for y in value:
-            y._TopologicalNode = self
-        self._ConnectivityNodes = value
+            y.TopologicalNode = self
 
     ConnectivityNodes = property(getConnectivityNodes, setConnectivityNodes)
 
@@ -224,8 +223,7 @@ class TopologicalNode(IdentifiedObject):
         for x in self._Terminal:
             x.TopologicalNode = None
         for y in value:
-            y._TopologicalNode = self
-        self._Terminal = value
+            y.TopologicalNode = self
 
     Terminal = property(getTerminal, setTerminal)
 
diff --git a/CIM15/IEC61970/Wires/ACLineSegment.py b/CIM15/IEC61970/Wires/ACLineSegment.py
index f2ad984..c9770fe 100644
--- a/CIM15/IEC61970/Wires/ACLineSegment.py
+++ b/CIM15/IEC61970/Wires/ACLineSegment.py
@@ -148,8 +148,7 @@ class ACLineSegment(Conductor):
         for x in self._ConductorAssets:
             x.ConductorSegment = None
         for y in value:
-            y._ConductorSegment = self
-        self._ConductorAssets = value
+            y.ConductorSegment = self
 
     ConductorAssets = property(getConductorAssets, setConductorAssets)
 
@@ -186,8 +185,7 @@ class ACLineSegment(Conductor):
         for x in self._Cut:
             x.ACLineSegment = None
         for y in value:
-            y._ACLineSegment = self
-        self._Cut = value
+            y.ACLineSegment = self
 
     Cut = property(getCut, setCut)
 
@@ -220,8 +218,7 @@ class ACLineSegment(Conductor):
         for x in self._Clamp:
             x.ACLineSegment = None
         for y in value:
-            y._ACLineSegment = self
-        self._Clamp = value
+            y.ACLineSegment = self
 
     Clamp = property(getClamp, setClamp)
 
@@ -240,8 +237,7 @@ class ACLineSegment(Conductor):
         for x in self._ACLineSegmentPhases:
             x.ACLineSegment = None
         for y in value:
-            y._ACLineSegment = self
-        self._ACLineSegmentPhases = value
+            y.ACLineSegment = self
 
     ACLineSegmentPhases = property(getACLineSegmentPhases, setACLineSegmentPhases)
 
diff --git a/CIM15/IEC61970/Wires/CompositeSwitch.py b/CIM15/IEC61970/Wires/CompositeSwitch.py
index 5dd6072..f354dc2 100644
--- a/CIM15/IEC61970/Wires/CompositeSwitch.py
+++ b/CIM15/IEC61970/Wires/CompositeSwitch.py
@@ -54,8 +54,7 @@ class CompositeSwitch(Equipment):
         for x in self._Switches:
             x.CompositeSwitch = None
         for y in value:
-            y._CompositeSwitch = self
-        self._Switches = value
+            y.CompositeSwitch = self
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM15/IEC61970/Wires/EnergyConsumer.py b/CIM15/IEC61970/Wires/EnergyConsumer.py
index a401f99..20514cc 100644
--- a/CIM15/IEC61970/Wires/EnergyConsumer.py
+++ b/CIM15/IEC61970/Wires/EnergyConsumer.py
@@ -81,8 +81,7 @@ class EnergyConsumer(ConductingEquipment):
         for x in self._ServiceDeliveryPoints:
             x.EnergyConsumer = None
         for y in value:
-            y._EnergyConsumer = self
-        self._ServiceDeliveryPoints = value
+            y.EnergyConsumer = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
@@ -136,8 +135,7 @@ class EnergyConsumer(ConductingEquipment):
         for x in self._EnergyConsumerPhases:
             x.EnergyConsumer = None
         for y in value:
-            y._EnergyConsumer = self
-        self._EnergyConsumerPhases = value
+            y.EnergyConsumer = self
 
     EnergyConsumerPhases = property(getEnergyConsumerPhases, setEnergyConsumerPhases)
 
diff --git a/CIM15/IEC61970/Wires/Ground.py b/CIM15/IEC61970/Wires/Ground.py
index f64902c..20c41bb 100644
--- a/CIM15/IEC61970/Wires/Ground.py
+++ b/CIM15/IEC61970/Wires/Ground.py
@@ -49,8 +49,7 @@ class Ground(ConductingEquipment):
         for x in self._WindingInsulations:
             x.Ground = None
         for y in value:
-            y._Ground = self
-        self._WindingInsulations = value
+            y.Ground = self
 
     WindingInsulations = property(getWindingInsulations, setWindingInsulations)
 
diff --git a/CIM15/IEC61970/Wires/PerLengthPhaseImpedance.py b/CIM15/IEC61970/Wires/PerLengthPhaseImpedance.py
index d534b27..0cbd9e5 100644
--- a/CIM15/IEC61970/Wires/PerLengthPhaseImpedance.py
+++ b/CIM15/IEC61970/Wires/PerLengthPhaseImpedance.py
@@ -58,8 +58,7 @@ class PerLengthPhaseImpedance(IdentifiedObject):
         for x in self._LineSegments:
             x.PhaseImpedance = None
         for y in value:
-            y._PhaseImpedance = self
-        self._LineSegments = value
+            y.PhaseImpedance = self
 
     LineSegments = property(getLineSegments, setLineSegments)
 
@@ -80,8 +79,7 @@ class PerLengthPhaseImpedance(IdentifiedObject):
         for x in self._PhaseImpedanceData:
             x.PhaseImpedance = None
         for y in value:
-            y._PhaseImpedance = self
-        self._PhaseImpedanceData = value
+            y.PhaseImpedance = self
 
     PhaseImpedanceData = property(getPhaseImpedanceData, setPhaseImpedanceData)
 
diff --git a/CIM15/IEC61970/Wires/PerLengthSequenceImpedance.py b/CIM15/IEC61970/Wires/PerLengthSequenceImpedance.py
index fd61c7c..7cf3440 100644
--- a/CIM15/IEC61970/Wires/PerLengthSequenceImpedance.py
+++ b/CIM15/IEC61970/Wires/PerLengthSequenceImpedance.py
@@ -82,8 +82,7 @@ class PerLengthSequenceImpedance(IdentifiedObject):
         for x in self._LineSegments:
             x.SequenceImpedance = None
         for y in value:
-            y._SequenceImpedance = self
-        self._LineSegments = value
+            y.SequenceImpedance = self
 
     LineSegments = property(getLineSegments, setLineSegments)
 
diff --git a/CIM15/IEC61970/Wires/PhaseTapChangerTabular.py b/CIM15/IEC61970/Wires/PhaseTapChangerTabular.py
index ddfaa55..f762832 100644
--- a/CIM15/IEC61970/Wires/PhaseTapChangerTabular.py
+++ b/CIM15/IEC61970/Wires/PhaseTapChangerTabular.py
@@ -53,8 +53,7 @@ class PhaseTapChangerTabular(Element):
         for x in self._PhaseTapChangerTabularPoint:
             x.PhaseTapChangerTabular = None
         for y in value:
-            y._PhaseTapChangerTabular = self
-        self._PhaseTapChangerTabularPoint = value
+            y.PhaseTapChangerTabular = self
 
     PhaseTapChangerTabularPoint = property(getPhaseTapChangerTabularPoint, setPhaseTapChangerTabularPoint)
 
@@ -74,8 +73,7 @@ class PhaseTapChangerTabular(Element):
         for x in self._PhaseTapChanger:
             x.PhaseTapChangerTabular = None
         for y in value:
-            y._PhaseTapChangerTabular = self
-        self._PhaseTapChanger = value
+            y.PhaseTapChangerTabular = self
 
     PhaseTapChanger = property(getPhaseTapChanger, setPhaseTapChanger)
 
diff --git a/CIM15/IEC61970/Wires/PowerTransformer.py b/CIM15/IEC61970/Wires/PowerTransformer.py
index ba8a579..dd0a19d 100644
--- a/CIM15/IEC61970/Wires/PowerTransformer.py
+++ b/CIM15/IEC61970/Wires/PowerTransformer.py
@@ -62,8 +62,7 @@ class PowerTransformer(ConductingEquipment):
         for x in self._TransformerTanks:
             x.PowerTransformer = None
         for y in value:
-            y._PowerTransformer = self
-        self._TransformerTanks = value
+            y.PowerTransformer = self
 
     TransformerTanks = property(getTransformerTanks, setTransformerTanks)
 
@@ -100,8 +99,7 @@ class PowerTransformer(ConductingEquipment):
         for x in self._PowerTransformerEnd:
             x.PowerTransformer = None
         for y in value:
-            y._PowerTransformer = self
-        self._PowerTransformerEnd = value
+            y.PowerTransformer = self
 
     PowerTransformerEnd = property(getPowerTransformerEnd, setPowerTransformerEnd)
 
diff --git a/CIM15/IEC61970/Wires/ProtectedSwitch.py b/CIM15/IEC61970/Wires/ProtectedSwitch.py
index a91f4bc..a8dcde1 100644
--- a/CIM15/IEC61970/Wires/ProtectedSwitch.py
+++ b/CIM15/IEC61970/Wires/ProtectedSwitch.py
@@ -86,8 +86,7 @@ class ProtectedSwitch(Switch):
         for x in self._RecloseSequences:
             x.ProtectedSwitch = None
         for y in value:
-            y._ProtectedSwitch = self
-        self._RecloseSequences = value
+            y.ProtectedSwitch = self
 
     RecloseSequences = property(getRecloseSequences, setRecloseSequences)
 
diff --git a/CIM15/IEC61970/Wires/RatioTapChangerTabular.py b/CIM15/IEC61970/Wires/RatioTapChangerTabular.py
index 5820b18..4ac1e0e 100644
--- a/CIM15/IEC61970/Wires/RatioTapChangerTabular.py
+++ b/CIM15/IEC61970/Wires/RatioTapChangerTabular.py
@@ -53,8 +53,7 @@ class RatioTapChangerTabular(Element):
         for x in self._RatioTapChangerTabularPoint:
             x.RatioTapChangerTabular = None
         for y in value:
-            y._RatioTapChangerTabular = self
-        self._RatioTapChangerTabularPoint = value
+            y.RatioTapChangerTabular = self
 
     RatioTapChangerTabularPoint = property(getRatioTapChangerTabularPoint, setRatioTapChangerTabularPoint)
 
@@ -74,8 +73,7 @@ class RatioTapChangerTabular(Element):
         for x in self._RatioTapChanger:
             x.RatioTapChangerTabular = None
         for y in value:
-            y._RatioTapChangerTabular = self
-        self._RatioTapChanger = value
+            y.RatioTapChangerTabular = self
 
     RatioTapChanger = property(getRatioTapChanger, setRatioTapChanger)
 
diff --git a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
index b71bb7b..8050f36 100644
--- a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -62,8 +62,7 @@ class ReactiveCapabilityCurve(Curve):
         for x in self._InitiallyUsedBySynchronousMachines:
             x.InitialReactiveCapabilityCurve = None
         for y in value:
-            y._InitialReactiveCapabilityCurve = self
-        self._InitiallyUsedBySynchronousMachines = value
+            y.InitialReactiveCapabilityCurve = self
 
     InitiallyUsedBySynchronousMachines = property(getInitiallyUsedBySynchronousMachines, setInitiallyUsedBySynchronousMachines)
 
diff --git a/CIM15/IEC61970/Wires/RegulatingCondEq.py b/CIM15/IEC61970/Wires/RegulatingCondEq.py
index 2336dd0..e373d2d 100644
--- a/CIM15/IEC61970/Wires/RegulatingCondEq.py
+++ b/CIM15/IEC61970/Wires/RegulatingCondEq.py
@@ -54,8 +54,7 @@ class RegulatingCondEq(ConductingEquipment):
         for x in self._Controls:
             x.RegulatingCondEq = None
         for y in value:
-            y._RegulatingCondEq = self
-        self._Controls = value
+            y.RegulatingCondEq = self
 
     Controls = property(getControls, setControls)
 
diff --git a/CIM15/IEC61970/Wires/RegulatingControl.py b/CIM15/IEC61970/Wires/RegulatingControl.py
index 363dd8a..63dac7f 100644
--- a/CIM15/IEC61970/Wires/RegulatingControl.py
+++ b/CIM15/IEC61970/Wires/RegulatingControl.py
@@ -78,8 +78,7 @@ class RegulatingControl(PowerSystemResource):
         for x in self._RegulatingCondEq:
             x.RegulatingControl = None
         for y in value:
-            y._RegulatingControl = self
-        self._RegulatingCondEq = value
+            y.RegulatingControl = self
 
     RegulatingCondEq = property(getRegulatingCondEq, setRegulatingCondEq)
 
@@ -117,8 +116,7 @@ class RegulatingControl(PowerSystemResource):
         for x in self._RegulationSchedule:
             x.RegulatingControl = None
         for y in value:
-            y._RegulatingControl = self
-        self._RegulationSchedule = value
+            y.RegulatingControl = self
 
     RegulationSchedule = property(getRegulationSchedule, setRegulationSchedule)
 
diff --git a/CIM15/IEC61970/Wires/RegulationSchedule.py b/CIM15/IEC61970/Wires/RegulationSchedule.py
index bb89057..9a07b28 100644
--- a/CIM15/IEC61970/Wires/RegulationSchedule.py
+++ b/CIM15/IEC61970/Wires/RegulationSchedule.py
@@ -71,8 +71,7 @@ class RegulationSchedule(SeasonDayTypeSchedule):
         for x in self._VoltageControlZones:
             x.RegulationSchedule = None
         for y in value:
-            y._RegulationSchedule = self
-        self._VoltageControlZones = value
+            y.RegulationSchedule = self
 
     VoltageControlZones = property(getVoltageControlZones, setVoltageControlZones)
 
diff --git a/CIM15/IEC61970/Wires/ShuntCompensator.py b/CIM15/IEC61970/Wires/ShuntCompensator.py
index 335091e..64f023f 100644
--- a/CIM15/IEC61970/Wires/ShuntCompensator.py
+++ b/CIM15/IEC61970/Wires/ShuntCompensator.py
@@ -129,8 +129,7 @@ class ShuntCompensator(RegulatingCondEq):
         for x in self._ShuntCompensatorPhases:
             x.ShuntCompensator = None
         for y in value:
-            y._ShuntCompensator = self
-        self._ShuntCompensatorPhases = value
+            y.ShuntCompensator = self
 
     ShuntCompensatorPhases = property(getShuntCompensatorPhases, setShuntCompensatorPhases)
 
diff --git a/CIM15/IEC61970/Wires/Switch.py b/CIM15/IEC61970/Wires/Switch.py
index f60431b..28a73d3 100644
--- a/CIM15/IEC61970/Wires/Switch.py
+++ b/CIM15/IEC61970/Wires/Switch.py
@@ -172,8 +172,7 @@ class Switch(ConductingEquipment):
         for x in self._SwitchSchedules:
             x.Switch = None
         for y in value:
-            y._Switch = self
-        self._SwitchSchedules = value
+            y.Switch = self
 
     SwitchSchedules = property(getSwitchSchedules, setSwitchSchedules)
 
@@ -193,8 +192,7 @@ class Switch(ConductingEquipment):
         for x in self._SwitchPhases:
             x.Switch = None
         for y in value:
-            y._Switch = self
-        self._SwitchPhases = value
+            y.Switch = self
 
     SwitchPhases = property(getSwitchPhases, setSwitchPhases)
 
diff --git a/CIM15/IEC61970/Wires/TapChanger.py b/CIM15/IEC61970/Wires/TapChanger.py
index fc604cc..d29249b 100644
--- a/CIM15/IEC61970/Wires/TapChanger.py
+++ b/CIM15/IEC61970/Wires/TapChanger.py
@@ -115,8 +115,7 @@ class TapChanger(PowerSystemResource):
         for x in self._TapSchedules:
             x.TapChanger = None
         for y in value:
-            y._TapChanger = self
-        self._TapSchedules = value
+            y.TapChanger = self
 
     TapSchedules = property(getTapSchedules, setTapSchedules)
 
diff --git a/CIM15/IEC61970/Wires/TapChangerControl.py b/CIM15/IEC61970/Wires/TapChangerControl.py
index 7cca9a0..2896305 100644
--- a/CIM15/IEC61970/Wires/TapChangerControl.py
+++ b/CIM15/IEC61970/Wires/TapChangerControl.py
@@ -74,8 +74,7 @@ class TapChangerControl(RegulatingControl):
         for x in self._TapChanger:
             x.TapChangerControl = None
         for y in value:
-            y._TapChangerControl = self
-        self._TapChanger = value
+            y.TapChangerControl = self
 
     TapChanger = property(getTapChanger, setTapChanger)
 
diff --git a/CIM15/IEC61970/Wires/TransformerCoreAdmittance.py b/CIM15/IEC61970/Wires/TransformerCoreAdmittance.py
index f0a40dd..532adaa 100644
--- a/CIM15/IEC61970/Wires/TransformerCoreAdmittance.py
+++ b/CIM15/IEC61970/Wires/TransformerCoreAdmittance.py
@@ -84,8 +84,7 @@ class TransformerCoreAdmittance(IdentifiedObject):
         for x in self._TransformerEnd:
             x.CoreAdmittance = None
         for y in value:
-            y._CoreAdmittance = self
-        self._TransformerEnd = value
+            y.CoreAdmittance = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/IEC61970/Wires/TransformerEnd.py b/CIM15/IEC61970/Wires/TransformerEnd.py
index bda7ae1..aacb102 100644
--- a/CIM15/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/IEC61970/Wires/TransformerEnd.py
@@ -148,8 +148,7 @@ class TransformerEnd(IdentifiedObject):
         for x in self._FromWindingInsulations:
             x.FromWinding = None
         for y in value:
-            y._FromWinding = self
-        self._FromWindingInsulations = value
+            y.FromWinding = self
 
     FromWindingInsulations = property(getFromWindingInsulations, setFromWindingInsulations)
 
@@ -236,8 +235,7 @@ class TransformerEnd(IdentifiedObject):
         for x in self._FromMeshImpedance:
             x.FromTransformerEnd = None
         for y in value:
-            y._FromTransformerEnd = self
-        self._FromMeshImpedance = value
+            y.FromTransformerEnd = self
 
     FromMeshImpedance = property(getFromMeshImpedance, setFromMeshImpedance)
 
@@ -257,8 +255,7 @@ class TransformerEnd(IdentifiedObject):
         for x in self._ToWindingInsulations:
             x.ToWinding = None
         for y in value:
-            y._ToWinding = self
-        self._ToWindingInsulations = value
+            y.ToWinding = self
 
     ToWindingInsulations = property(getToWindingInsulations, setToWindingInsulations)
 
diff --git a/CIM15/IEC61970/Wires/TransformerStarImpedance.py b/CIM15/IEC61970/Wires/TransformerStarImpedance.py
index f18ba71..fe2df2a 100644
--- a/CIM15/IEC61970/Wires/TransformerStarImpedance.py
+++ b/CIM15/IEC61970/Wires/TransformerStarImpedance.py
@@ -66,8 +66,7 @@ class TransformerStarImpedance(IdentifiedObject):
         for x in self._TransformerEnd:
             x.StarImpedance = None
         for y in value:
-            y._StarImpedance = self
-        self._TransformerEnd = value
+            y.StarImpedance = self
 
     TransformerEnd = property(getTransformerEnd, setTransformerEnd)
 
diff --git a/CIM15/IEC61970/Wires/TransformerTank.py b/CIM15/IEC61970/Wires/TransformerTank.py
index 372ce37..91fd573 100644
--- a/CIM15/IEC61970/Wires/TransformerTank.py
+++ b/CIM15/IEC61970/Wires/TransformerTank.py
@@ -66,8 +66,7 @@ class TransformerTank(Equipment):
         for x in self._ServiceDeliveryPoints:
             x.TransformerTanks = None
         for y in value:
-            y._TransformerTanks = self
-        self._ServiceDeliveryPoints = value
+            y.TransformerTanks = self
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
@@ -88,8 +87,7 @@ class TransformerTank(Equipment):
         for x in self._TransformerTankEnds:
             x.TransformerTank = None
         for y in value:
-            y._TransformerTank = self
-        self._TransformerTankEnds = value
+            y.TransformerTank = self
 
     TransformerTankEnds = property(getTransformerTankEnds, setTransformerTankEnds)
 
@@ -143,8 +141,7 @@ class TransformerTank(Equipment):
         for x in self._TransformerObservations:
             x.Transformer = None
         for y in value:
-            y._Transformer = self
-        self._TransformerObservations = value
+            y.Transformer = self
 
     TransformerObservations = property(getTransformerObservations, setTransformerObservations)
 
-- 
2.43.0


From 00adf4c7e5bd978ee38470a2686a90c56eda049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 02/29] fix: clear old partners when a non-empty n:m list is
 reassigned

The setter assigned the filtered list to an attribute of the list instead of
the old partner and so raised AttributeError.
---
 .../IEC61968/AssetModels/OpenCircuitTest.py    |  2 +-
 .../IEC61968/AssetModels/ShortCircuitTest.py   |  2 +-
 .../IEC61968/AssetModels/ToWindingSpec.py      |  4 ++--
 .../IEC61968/AssetModels/OpenCircuitTest.py    |  2 +-
 .../IEC61968/AssetModels/ShortCircuitTest.py   |  2 +-
 .../IEC61968/AssetModels/ToWindingSpec.py      |  4 ++--
 .../IEC61968/AssetModels/OpenCircuitTest.py    |  2 +-
 .../IEC61968/AssetModels/ShortCircuitTest.py   |  2 +-
 .../IEC61968/AssetModels/ToWindingSpec.py      |  4 ++--
 .../Dynamics/IEC61968/Assets/AssetsAsset.py    |  2 +-
 .../Customers/CustomersCustomerAgreement.py    |  2 +-
 .../IEC61970/Core/CoreConductingEquipment.py   |  2 +-
 .../Dynamics/IEC61970/Core/CoreEquipment.py    |  2 +-
 .../IEC61970/Core/CorePowerSystemResource.py   |  6 +++---
 .../Dynamics/IEC61970/Core/CorePsrList.py      |  2 +-
 .../IEC61970/Core/CoreReportingGroup.py        |  2 +-
 .../ProtectionProtectionEquipment.py           |  2 +-
 CIM14/IEC61968/AssetModels/OpenCircuitTest.py  |  2 +-
 CIM14/IEC61968/AssetModels/ShortCircuitTest.py |  2 +-
 CIM14/IEC61968/AssetModels/ToWindingSpec.py    |  4 ++--
 CIM14/IEC61968/Assets/Asset.py                 |  8 ++++----
 CIM14/IEC61968/Common/ActivityRecord.py        |  4 ++--
 CIM14/IEC61968/Common/Document.py              |  4 ++--
 CIM14/IEC61968/Common/Location.py              |  2 +-
 CIM14/IEC61968/Common/UserAttribute.py         |  4 ++--
 CIM14/IEC61968/Customers/Customer.py           |  2 +-
 CIM14/IEC61968/Customers/CustomerAgreement.py  |  6 +++---
 CIM14/IEC61968/Customers/PricingStructure.py   |  6 +++---
 CIM14/IEC61968/Customers/ServiceLocation.py    |  2 +-
 CIM14/IEC61968/Customers/Tariff.py             |  4 ++--
 .../LoadControl/ConnectDisconnectFunction.py   |  2 +-
 CIM14/IEC61968/Metering/EndDeviceAsset.py      |  2 +-
 CIM14/IEC61968/Metering/EndDeviceGroup.py      |  2 +-
 CIM14/IEC61968/Metering/IntervalBlock.py       |  2 +-
 CIM14/IEC61968/Metering/IntervalReading.py     |  2 +-
 CIM14/IEC61968/Metering/MeterReading.py        |  2 +-
 CIM14/IEC61968/Metering/Reading.py             |  2 +-
 CIM14/IEC61968/Metering/SDPLocation.py         |  2 +-
 .../IEC61968/Metering/ServiceDeliveryPoint.py  |  4 ++--
 .../PaymentMetering/AuxiliaryAccount.py        |  2 +-
 CIM14/IEC61968/PaymentMetering/Charge.py       |  6 +++---
 .../ConsumptionTariffInterval.py               |  4 ++--
 .../PaymentMetering/MerchantAccount.py         |  2 +-
 .../IEC61968/PaymentMetering/TariffProfile.py  |  6 +++---
 .../PaymentMetering/TimeTariffInterval.py      |  4 ++--
 CIM14/IEC61968/PaymentMetering/Transactor.py   |  2 +-
 CIM14/IEC61968/Work/Work.py                    |  2 +-
 CIM14/IEC61970/Core/ConductingEquipment.py     |  2 +-
 CIM14/IEC61970/Core/Equipment.py               |  2 +-
 CIM14/IEC61970/Core/PowerSystemResource.py     |  6 +++---
 CIM14/IEC61970/Core/PsrList.py                 |  2 +-
 CIM14/IEC61970/Core/ReportingGroup.py          |  2 +-
 .../IEC61970/Dynamics/BlockOutputReference.py  |  2 +-
 CIM14/IEC61970/Dynamics/CompositeModel.py      |  2 +-
 CIM14/IEC61970/Dynamics/Generators/GenEquiv.py |  2 +-
 CIM14/IEC61970/Dynamics/Generators/GenLoad.py  |  2 +-
 CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py |  2 +-
 CIM14/IEC61970/Dynamics/MetaBlockReference.py  |  2 +-
 CIM14/IEC61970/Dynamics/MetaBlockSignal.py     |  4 ++--
 .../IEC61970/Dynamics/Motors/MechanicalLoad.py |  2 +-
 CIM14/IEC61970/Dynamics/RotatingMachine.py     |  2 +-
 CIM14/IEC61970/Dynamics/SlotReference.py       |  2 +-
 .../Dynamics/TurbineGovernors/GovHydro1.py     |  2 +-
 .../GenerationDynamics/PrimeMover.py           |  2 +-
 .../GenerationDynamics/SteamSupply.py          |  2 +-
 .../GenerationDynamics/SteamTurbine.py         |  2 +-
 CIM14/IEC61970/Meas/Accumulator.py             |  2 +-
 CIM14/IEC61970/Meas/AccumulatorLimitSet.py     |  2 +-
 CIM14/IEC61970/Meas/Analog.py                  |  2 +-
 CIM14/IEC61970/Meas/AnalogLimitSet.py          |  2 +-
 CIM14/IEC61970/Meas/Measurement.py             |  4 ++--
 CIM14/IEC61970/Outage/SwitchingOperation.py    |  2 +-
 .../IEC61970/Protection/ProtectionEquipment.py |  2 +-
 CIM14/IEC61970/SCADA/CommunicationLink.py      |  2 +-
 CIM14/IEC61970/SCADA/RemoteUnit.py             |  2 +-
 CIM14/IEC61970/Wires/EnergyConsumer.py         |  2 +-
 .../IEC61970/Wires/ReactiveCapabilityCurve.py  |  2 +-
 CIM14/IEC61970/Wires/Switch.py                 |  4 ++--
 CIM14/IEC61970/Wires/SynchronousMachine.py     | 10 +++++-----
 .../Balanced/IEC61970/Wires/TransformerEnd.py  |  2 +-
 .../IEC61970/Wires/TransformerMeshImpedance.py |  2 +-
 CIM15/IEC61968/AssetModels/ShortCircuitTest.py |  2 +-
 .../IEC61968/AssetModels/TransformerEndInfo.py |  4 ++--
 CIM15/IEC61968/Assets/Asset.py                 | 18 +++++++++---------
 CIM15/IEC61968/Assets/AssetContainer.py        |  2 +-
 CIM15/IEC61968/Common/ActivityRecord.py        |  8 ++++----
 CIM15/IEC61968/Common/CoordinateSystem.py      |  2 +-
 CIM15/IEC61968/Common/Document.py              | 10 +++++-----
 CIM15/IEC61968/Common/Location.py              | 14 +++++++-------
 CIM15/IEC61968/Common/Organisation.py          |  2 +-
 CIM15/IEC61968/Common/UserAttribute.py         | 10 +++++-----
 CIM15/IEC61968/Customers/Customer.py           |  4 ++--
 CIM15/IEC61968/Customers/CustomerAgreement.py  |  6 +++---
 CIM15/IEC61968/Customers/PricingStructure.py   |  6 +++---
 CIM15/IEC61968/Customers/ServiceLocation.py    |  2 +-
 CIM15/IEC61968/Customers/Tariff.py             |  4 ++--
 .../LoadControl/ConnectDisconnectFunction.py   |  2 +-
 CIM15/IEC61968/Metering/EndDevice.py           |  2 +-
 CIM15/IEC61968/Metering/EndDeviceGroup.py      |  2 +-
 CIM15/IEC61968/Metering/IntervalBlock.py       |  2 +-
 CIM15/IEC61968/Metering/IntervalReading.py     |  2 +-
 CIM15/IEC61968/Metering/MeterReading.py        |  2 +-
 CIM15/IEC61968/Metering/Reading.py             |  2 +-
 CIM15/IEC61968/Metering/SDPLocation.py         |  2 +-
 .../IEC61968/Metering/ServiceDeliveryPoint.py  |  4 ++--
 .../PaymentMetering/AuxiliaryAccount.py        |  2 +-
 CIM15/IEC61968/PaymentMetering/Charge.py       |  6 +++---
 .../ConsumptionTariffInterval.py               |  6 +++---
 .../PaymentMetering/MerchantAccount.py         |  2 +-
 .../IEC61968/PaymentMetering/TariffProfile.py  |  6 +++---
 .../PaymentMetering/TimeTariffInterval.py      |  6 +++---
 CIM15/IEC61968/PaymentMetering/Transactor.py   |  2 +-
 CIM15/IEC61968/Work/Work.py                    |  4 ++--
 CIM15/IEC61970/Core/ConductingEquipment.py     |  2 +-
 CIM15/IEC61970/Core/Equipment.py               |  2 +-
 CIM15/IEC61970/Core/PowerSystemResource.py     | 10 +++++-----
 CIM15/IEC61970/Core/PsrList.py                 |  2 +-
 CIM15/IEC61970/Core/ReportingGroup.py          |  2 +-
 .../GenerationDynamics/PrimeMover.py           |  2 +-
 .../GenerationDynamics/SteamSupply.py          |  2 +-
 .../GenerationDynamics/SteamTurbine.py         |  2 +-
 CIM15/IEC61970/Graphics/DiagramObject.py       |  2 +-
 CIM15/IEC61970/Graphics/VisibilityLayer.py     |  2 +-
 .../InfAssets/AssetPropertyCurve.py            |  2 +-
 .../Informative/InfAssets/DimensionsInfo.py    |  2 +-
 CIM15/IEC61970/Informative/InfAssets/Medium.py |  2 +-
 .../InfAssets/MountingConnection.py            |  4 ++--
 .../Informative/InfAssets/MountingPoint.py     |  2 +-
 .../Informative/InfAssets/PowerRating.py       |  2 +-
 .../Informative/InfAssets/Procedure.py         |  4 ++--
 .../Informative/InfAssets/ProcedureDataSet.py  |  6 +++---
 .../Informative/InfAssets/ReliabilityInfo.py   |  2 +-
 .../Informative/InfAssets/Specification.py     |  4 ++--
 .../Informative/InfAssets/Structure.py         |  2 +-
 .../Informative/InfAssets/TransformerAsset.py  |  2 +-
 .../InfAssets/TransformerObservation.py        |  2 +-
 .../Informative/InfCommon/BusinessRole.py      |  2 +-
 CIM15/IEC61970/Informative/InfCommon/Craft.py  |  6 +++---
 .../InfCommon/ScheduleParameterInfo.py         |  2 +-
 .../Informative/InfCommon/ScheduledEvent.py    |  2 +-
 CIM15/IEC61970/Informative/InfCommon/Skill.py  |  4 ++--
 .../InfCustomers/CustomerBillingInfo.py        |  2 +-
 .../InfCustomers/WorkBillingInfo.py            |  2 +-
 .../InfERPSupport/ErpInvoiceLineItem.py        |  8 ++++----
 .../InfERPSupport/ErpJournalEntry.py           |  6 +++---
 .../InfERPSupport/ErpLedgerEntry.py            |  2 +-
 .../InfERPSupport/ErpOrganisation.py           |  6 +++---
 .../Informative/InfERPSupport/ErpPayable.py    |  2 +-
 .../InfERPSupport/ErpPayableLineItem.py        |  4 ++--
 .../Informative/InfERPSupport/ErpPayment.py    |  6 +++---
 .../Informative/InfERPSupport/ErpPerson.py     | 12 ++++++------
 .../InfERPSupport/ErpRecDelvLineItem.py        |  4 ++--
 .../InfERPSupport/ErpRecLineItem.py            |  4 ++--
 .../Informative/InfGMLSupport/Diagram.py       |  4 ++--
 .../InfGMLSupport/GmlDiagramObject.py          |  8 ++++----
 .../InfGMLSupport/GmlFeatureStyle.py           |  4 ++--
 .../InfGMLSupport/GmlFeatureType.py            |  2 +-
 .../Informative/InfGMLSupport/GmlFill.py       |  4 ++--
 .../Informative/InfGMLSupport/GmlFont.py       |  2 +-
 .../Informative/InfGMLSupport/GmlGraphic.py    |  2 +-
 .../Informative/InfGMLSupport/GmlMark.py       |  6 +++---
 .../InfGMLSupport/GmlObservation.py            |  2 +-
 .../Informative/InfGMLSupport/GmlSelector.py   |  2 +-
 .../Informative/InfGMLSupport/GmlStroke.py     |  4 ++--
 .../InfGMLSupport/GmlSvgParameter.py           |  6 +++---
 .../Informative/InfGMLSupport/GmlSymbol.py     |  2 +-
 .../InfLoadControl/LoadMgmtFunction.py         |  2 +-
 .../Informative/InfLocations/Hazard.py         |  2 +-
 .../Informative/InfLocations/LandProperty.py   |  8 ++++----
 .../InfLocations/OrgPropertyRole.py            |  2 +-
 .../Informative/InfLocations/RedLine.py        |  2 +-
 .../Informative/InfLocations/RightOfWay.py     |  2 +-
 .../IEC61970/Informative/InfLocations/Route.py |  2 +-
 .../Informative/InfOperations/CallBack.py      |  4 ++--
 .../Informative/InfOperations/ChangeSet.py     |  4 ++--
 .../Informative/InfOperations/Circuit.py       |  2 +-
 .../InfOperations/CircuitSection.py            |  2 +-
 .../Informative/InfOperations/IncidentCode.py  |  2 +-
 .../InfOperations/IncidentRecord.py            |  2 +-
 .../InfOperations/NetworkDataSet.py            |  6 +++---
 .../Informative/InfOperations/OutageCode.py    |  4 ++--
 .../InfOperations/OutageNotification.py        |  2 +-
 .../Informative/InfOperations/OutageRecord.py  |  2 +-
 .../Informative/InfOperations/OutageStep.py    |  4 ++--
 .../InfOperations/SwitchingSchedule.py         |  2 +-
 .../Informative/InfOperations/SwitchingStep.py |  2 +-
 .../Informative/InfOperations/TroubleTicket.py |  2 +-
 .../Informative/InfWork/Appointment.py         |  2 +-
 .../IEC61970/Informative/InfWork/Assignment.py |  2 +-
 CIM15/IEC61970/Informative/InfWork/CUAsset.py  |  2 +-
 .../Informative/InfWork/CUContractorItem.py    |  2 +-
 CIM15/IEC61970/Informative/InfWork/CUGroup.py  |  6 +++---
 .../Informative/InfWork/CULaborItem.py         |  4 ++--
 .../Informative/InfWork/CUMaterialItem.py      |  4 ++--
 .../Informative/InfWork/CUWorkEquipmentItem.py |  2 +-
 .../IEC61970/Informative/InfWork/Capability.py |  4 ++--
 .../Informative/InfWork/CompatibleUnit.py      | 14 +++++++-------
 .../Informative/InfWork/ConditionFactor.py     |  6 +++---
 .../Informative/InfWork/ContractorItem.py      |  2 +-
 CIM15/IEC61970/Informative/InfWork/CostType.py |  2 +-
 CIM15/IEC61970/Informative/InfWork/Crew.py     | 16 ++++++++--------
 CIM15/IEC61970/Informative/InfWork/Design.py   |  6 +++---
 .../Informative/InfWork/DesignLocation.py      |  8 ++++----
 .../Informative/InfWork/DesignLocationCU.py    | 10 +++++-----
 .../IEC61970/Informative/InfWork/LaborItem.py  |  2 +-
 .../Informative/InfWork/MaterialItem.py        |  2 +-
 CIM15/IEC61970/Informative/InfWork/Project.py  |  2 +-
 .../Informative/InfWork/PropertyUnit.py        |  4 ++--
 .../InfWork/QualificationRequirement.py        |  8 ++++----
 CIM15/IEC61970/Informative/InfWork/Request.py  |  2 +-
 .../Informative/InfWork/ShiftPattern.py        |  2 +-
 .../Informative/InfWork/WorkCostDetail.py      |  4 ++--
 .../Informative/InfWork/WorkLocation.py        |  2 +-
 CIM15/IEC61970/Informative/InfWork/WorkTask.py |  8 ++++----
 CIM15/IEC61970/Meas/Accumulator.py             |  2 +-
 CIM15/IEC61970/Meas/AccumulatorLimitSet.py     |  2 +-
 CIM15/IEC61970/Meas/Analog.py                  |  2 +-
 CIM15/IEC61970/Meas/AnalogLimitSet.py          |  2 +-
 CIM15/IEC61970/Meas/Limit.py                   |  2 +-
 CIM15/IEC61970/Meas/Measurement.py             |  4 ++--
 CIM15/IEC61970/Meas/MeasurementValue.py        |  2 +-
 CIM15/IEC61970/Outage/SwitchingOperation.py    |  2 +-
 .../IEC61970/Protection/ProtectionEquipment.py |  4 ++--
 CIM15/IEC61970/SCADA/CommunicationLink.py      |  2 +-
 CIM15/IEC61970/SCADA/RemoteUnit.py             |  2 +-
 CIM15/IEC61970/Wires/ACLineSegment.py          |  2 +-
 .../IEC61970/Wires/CurrentTemperatureCurve.py  |  2 +-
 CIM15/IEC61970/Wires/ProtectedSwitch.py        |  2 +-
 .../IEC61970/Wires/ReactiveCapabilityCurve.py  |  2 +-
 CIM15/IEC61970/Wires/Switch.py                 |  6 +++---
 CIM15/IEC61970/Wires/SynchronousMachine.py     |  4 ++--
 CIM15/IEC61970/Wires/TransformerEnd.py         |  2 +-
 .../IEC61970/Wires/TransformerMeshImpedance.py |  4 ++--
 CIM15/IEC62325/MarketParticipant.py            |  2 +-
 CIM15/IEC62325/MarketRole.py                   |  2 +-
 235 files changed, 402 insertions(+), 402 deletions(-)

diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
index 2ebf5d5..7ecf290 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
@@ -65,7 +65,7 @@ class OpenCircuitTest(DistributionWindingTest):
     def setMeasuredWindingSpecs(self, value):
         for p in self._MeasuredWindingSpecs:
             filtered = [q for q in p.OpenCircuitTests if q != self]
-            self._MeasuredWindingSpecs._OpenCircuitTests = filtered
+            p._OpenCircuitTests = filtered
         for r in value:
             if self not in r._OpenCircuitTests:
                 r._OpenCircuitTests.append(self)
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
index df1dc04..e1f36f8 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
@@ -65,7 +65,7 @@ class ShortCircuitTest(DistributionWindingTest):
     def setShortedWindingSpecs(self, value):
         for p in self._ShortedWindingSpecs:
             filtered = [q for q in p.ShortCircuitTests if q != self]
-            self._ShortedWindingSpecs._ShortCircuitTests = filtered
+            p._ShortCircuitTests = filtered
         for r in value:
             if self not in r._ShortCircuitTests:
                 r._ShortCircuitTests.append(self)
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
index 239896b..acc2179 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
@@ -69,7 +69,7 @@ class ToWindingSpec(IdentifiedObject):
     def setOpenCircuitTests(self, value):
         for p in self._OpenCircuitTests:
             filtered = [q for q in p.MeasuredWindingSpecs if q != self]
-            self._OpenCircuitTests._MeasuredWindingSpecs = filtered
+            p._MeasuredWindingSpecs = filtered
         for r in value:
             if self not in r._MeasuredWindingSpecs:
                 r._MeasuredWindingSpecs.append(self)
@@ -97,7 +97,7 @@ class ToWindingSpec(IdentifiedObject):
     def setShortCircuitTests(self, value):
         for p in self._ShortCircuitTests:
             filtered = [q for q in p.ShortedWindingSpecs if q != self]
-            self._ShortCircuitTests._ShortedWindingSpecs = filtered
+            p._ShortedWindingSpecs = filtered
         for r in value:
             if self not in r._ShortedWindingSpecs:
                 r._ShortedWindingSpecs.append(self)
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
index 54d7867..9a20bdc 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
@@ -65,7 +65,7 @@ class OpenCircuitTest(DistributionWindingTest):
     def setMeasuredWindingSpecs(self, value):
         for p in self._MeasuredWindingSpecs:
             filtered = [q for q in p.OpenCircuitTests if q != self]
-            self._MeasuredWindingSpecs._OpenCircuitTests = filtered
+            p._OpenCircuitTests = filtered
         for r in value:
             if self not in r._OpenCircuitTests:
                 r._OpenCircuitTests.append(self)
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
index 348e514..0d85081 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
@@ -65,7 +65,7 @@ class ShortCircuitTest(DistributionWindingTest):
     def setShortedWindingSpecs(self, value):
         for p in self._ShortedWindingSpecs:
             filtered = [q for q in p.ShortCircuitTests if q != self]
-            self._ShortedWindingSpecs._ShortCircuitTests = filtered
+            p._ShortCircuitTests = filtered
         for r in value:
             if self not in r._ShortCircuitTests:
                 r._ShortCircuitTests.append(self)
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
index ed29991..8af27b7 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
@@ -69,7 +69,7 @@ class ToWindingSpec(IdentifiedObject):
     def setOpenCircuitTests(self, value):
         for p in self._OpenCircuitTests:
             filtered = [q for q in p.MeasuredWindingSpecs if q != self]
-            self._OpenCircuitTests._MeasuredWindingSpecs = filtered
+            p._MeasuredWindingSpecs = filtered
         for r in value:
             if self not in r._MeasuredWindingSpecs:
                 r._MeasuredWindingSpecs.append(self)
@@ -97,7 +97,7 @@ class ToWindingSpec(IdentifiedObject):
     def setShortCircuitTests(self, value):
         for p in self._ShortCircuitTests:
             filtered = [q for q in p.ShortedWindingSpecs if q != self]
-            self._ShortCircuitTests._ShortedWindingSpecs = filtered
+            p._ShortedWindingSpecs = filtered
         for r in value:
             if self not in r._ShortedWindingSpecs:
                 r._ShortedWindingSpecs.append(self)
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
index 6df8e81..0cb5a44 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
@@ -65,7 +65,7 @@ class OpenCircuitTest(DistributionWindingTest):
     def setMeasuredWindingSpecs(self, value):
         for p in self._MeasuredWindingSpecs:
             filtered = [q for q in p.OpenCircuitTests if q != self]
-            self._MeasuredWindingSpecs._OpenCircuitTests = filtered
+            p._OpenCircuitTests = filtered
         for r in value:
             if self not in r._OpenCircuitTests:
                 r._OpenCircuitTests.append(self)
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
index b2a4200..ef87bf6 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
@@ -65,7 +65,7 @@ class ShortCircuitTest(DistributionWindingTest):
     def setShortedWindingSpecs(self, value):
         for p in self._ShortedWindingSpecs:
             filtered = [q for q in p.ShortCircuitTests if q != self]
-            self._ShortedWindingSpecs._ShortCircuitTests = filtered
+            p._ShortCircuitTests = filtered
         for r in value:
             if self not in r._ShortCircuitTests:
                 r._ShortCircuitTests.append(self)
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
index 9e46995..3254ef9 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
@@ -69,7 +69,7 @@ class ToWindingSpec(IdentifiedObject):
     def setOpenCircuitTests(self, value):
         for p in self._OpenCircuitTests:
             filtered = [q for q in p.MeasuredWindingSpecs if q != self]
-            self._OpenCircuitTests._MeasuredWindingSpecs = filtered
+            p._MeasuredWindingSpecs = filtered
         for r in value:
             if self not in r._MeasuredWindingSpecs:
                 r._MeasuredWindingSpecs.append(self)
@@ -97,7 +97,7 @@ class ToWindingSpec(IdentifiedObject):
     def setShortCircuitTests(self, value):
         for p in self._ShortCircuitTests:
             filtered = [q for q in p.ShortedWindingSpecs if q != self]
-            self._ShortCircuitTests._ShortedWindingSpecs = filtered
+            p._ShortedWindingSpecs = filtered
         for r in value:
             if self not in r._ShortedWindingSpecs:
                 r._ShortedWindingSpecs.append(self)
diff --git a/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py b/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
index 92b8761..b66e3cb 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
@@ -47,7 +47,7 @@ class AssetsAsset(CoreIdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.Assets if q != self]
-            self._PowerSystemResources._Assets = filtered
+            p._Assets = filtered
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
diff --git a/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py b/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
index f626e2c..f046c26 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
@@ -47,7 +47,7 @@ class CustomersCustomerAgreement(CoreIdentifiedObject):
     def setEquipments(self, value):
         for p in self._Equipments:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._Equipments._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
index fda9ba7..81f8715 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
@@ -121,7 +121,7 @@ class CoreConductingEquipment(CoreEquipment):
     def setProtectionEquipments(self, value):
         for p in self._ProtectionEquipments:
             filtered = [q for q in p.ConductingEquipments if q != self]
-            self._ProtectionEquipments._ConductingEquipments = filtered
+            p._ConductingEquipments = filtered
         for r in value:
             if self not in r._ConductingEquipments:
                 r._ConductingEquipments.append(self)
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
index d79bbb8..5e46525 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
@@ -102,7 +102,7 @@ class CoreEquipment(CorePowerSystemResource):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.Equipments if q != self]
-            self._CustomerAgreements._Equipments = filtered
+            p._Equipments = filtered
         for r in value:
             if self not in r._Equipments:
                 r._Equipments.append(self)
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
index 0253d20..ac379be 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
@@ -114,7 +114,7 @@ class CorePowerSystemResource(CoreIdentifiedObject):
     def setReportingGroup(self, value):
         for p in self._ReportingGroup:
             filtered = [q for q in p.PowerSystemResource if q != self]
-            self._ReportingGroup._PowerSystemResource = filtered
+            p._PowerSystemResource = filtered
         for r in value:
             if self not in r._PowerSystemResource:
                 r._PowerSystemResource.append(self)
@@ -141,7 +141,7 @@ class CorePowerSystemResource(CoreIdentifiedObject):
     def setPsrLists(self, value):
         for p in self._PsrLists:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._PsrLists._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
@@ -223,7 +223,7 @@ class CorePowerSystemResource(CoreIdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._Assets._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
index 3c176c8..e7b3da2 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
@@ -47,7 +47,7 @@ class CorePsrList(CoreIdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.PsrLists if q != self]
-            self._PowerSystemResources._PsrLists = filtered
+            p._PsrLists = filtered
         for r in value:
             if self not in r._PsrLists:
                 r._PsrLists.append(self)
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
index a101640..ba8478e 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
@@ -47,7 +47,7 @@ class CoreReportingGroup(CoreIdentifiedObject):
     def setPowerSystemResource(self, value):
         for p in self._PowerSystemResource:
             filtered = [q for q in p.ReportingGroup if q != self]
-            self._PowerSystemResource._ReportingGroup = filtered
+            p._ReportingGroup = filtered
         for r in value:
             if self not in r._ReportingGroup:
                 r._ReportingGroup.append(self)
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
index 9f2f55b..40d816f 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
@@ -47,7 +47,7 @@ class ProtectionProtectionEquipment(CoreEquipment):
     def setConductingEquipments(self, value):
         for p in self._ConductingEquipments:
             filtered = [q for q in p.ProtectionEquipments if q != self]
-            self._ConductingEquipments._ProtectionEquipments = filtered
+            p._ProtectionEquipments = filtered
         for r in value:
             if self not in r._ProtectionEquipments:
                 r._ProtectionEquipments.append(self)
diff --git a/CIM14/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
index 457601f..c7d687d 100644
--- a/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
@@ -65,7 +65,7 @@ class OpenCircuitTest(DistributionWindingTest):
     def setMeasuredWindingSpecs(self, value):
         for p in self._MeasuredWindingSpecs:
             filtered = [q for q in p.OpenCircuitTests if q != self]
-            self._MeasuredWindingSpecs._OpenCircuitTests = filtered
+            p._OpenCircuitTests = filtered
         for r in value:
             if self not in r._OpenCircuitTests:
                 r._OpenCircuitTests.append(self)
diff --git a/CIM14/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
index 05d817e..dfa3c00 100644
--- a/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
@@ -65,7 +65,7 @@ class ShortCircuitTest(DistributionWindingTest):
     def setShortedWindingSpecs(self, value):
         for p in self._ShortedWindingSpecs:
             filtered = [q for q in p.ShortCircuitTests if q != self]
-            self._ShortedWindingSpecs._ShortCircuitTests = filtered
+            p._ShortCircuitTests = filtered
         for r in value:
             if self not in r._ShortCircuitTests:
                 r._ShortCircuitTests.append(self)
diff --git a/CIM14/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/IEC61968/AssetModels/ToWindingSpec.py
index d28f93d..2458f2d 100644
--- a/CIM14/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/IEC61968/AssetModels/ToWindingSpec.py
@@ -86,7 +86,7 @@ class ToWindingSpec(IdentifiedObject):
     def setOpenCircuitTests(self, value):
         for p in self._OpenCircuitTests:
             filtered = [q for q in p.MeasuredWindingSpecs if q != self]
-            self._OpenCircuitTests._MeasuredWindingSpecs = filtered
+            p._MeasuredWindingSpecs = filtered
         for r in value:
             if self not in r._MeasuredWindingSpecs:
                 r._MeasuredWindingSpecs.append(self)
@@ -114,7 +114,7 @@ class ToWindingSpec(IdentifiedObject):
     def setShortCircuitTests(self, value):
         for p in self._ShortCircuitTests:
             filtered = [q for q in p.ShortedWindingSpecs if q != self]
-            self._ShortCircuitTests._ShortedWindingSpecs = filtered
+            p._ShortedWindingSpecs = filtered
         for r in value:
             if self not in r._ShortedWindingSpecs:
                 r._ShortedWindingSpecs.append(self)
diff --git a/CIM14/IEC61968/Assets/Asset.py b/CIM14/IEC61968/Assets/Asset.py
index bf43bb1..280cfcd 100644
--- a/CIM14/IEC61968/Assets/Asset.py
+++ b/CIM14/IEC61968/Assets/Asset.py
@@ -134,7 +134,7 @@ class Asset(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.Assets if q != self]
-            self._PowerSystemResources._Assets = filtered
+            p._Assets = filtered
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
@@ -162,7 +162,7 @@ class Asset(IdentifiedObject):
     def setProperties(self, value):
         for p in self._Properties:
             filtered = [q for q in p.PropertyAssets if q != self]
-            self._Properties._PropertyAssets = filtered
+            p._PropertyAssets = filtered
         for r in value:
             if self not in r._PropertyAssets:
                 r._PropertyAssets.append(self)
@@ -193,7 +193,7 @@ class Asset(IdentifiedObject):
     def setActivityRecords(self, value):
         for p in self._ActivityRecords:
             filtered = [q for q in p.Assets if q != self]
-            self._ActivityRecords._Assets = filtered
+            p._Assets = filtered
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
@@ -297,7 +297,7 @@ class Asset(IdentifiedObject):
     def setRatings(self, value):
         for p in self._Ratings:
             filtered = [q for q in p.RatingAssets if q != self]
-            self._Ratings._RatingAssets = filtered
+            p._RatingAssets = filtered
         for r in value:
             if self not in r._RatingAssets:
                 r._RatingAssets.append(self)
diff --git a/CIM14/IEC61968/Common/ActivityRecord.py b/CIM14/IEC61968/Common/ActivityRecord.py
index 56a925b..59ff339 100644
--- a/CIM14/IEC61968/Common/ActivityRecord.py
+++ b/CIM14/IEC61968/Common/ActivityRecord.py
@@ -72,7 +72,7 @@ class ActivityRecord(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.ActivityRecords if q != self]
-            self._Documents._ActivityRecords = filtered
+            p._ActivityRecords = filtered
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
@@ -100,7 +100,7 @@ class ActivityRecord(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.ActivityRecords if q != self]
-            self._Assets._ActivityRecords = filtered
+            p._ActivityRecords = filtered
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
diff --git a/CIM14/IEC61968/Common/Document.py b/CIM14/IEC61968/Common/Document.py
index 15132d8..ffad791 100644
--- a/CIM14/IEC61968/Common/Document.py
+++ b/CIM14/IEC61968/Common/Document.py
@@ -92,7 +92,7 @@ class Document(IdentifiedObject):
     def setActivityRecords(self, value):
         for p in self._ActivityRecords:
             filtered = [q for q in p.Documents if q != self]
-            self._ActivityRecords._Documents = filtered
+            p._Documents = filtered
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
@@ -123,7 +123,7 @@ class Document(IdentifiedObject):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.Documents if q != self]
-            self._Measurements._Documents = filtered
+            p._Documents = filtered
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
diff --git a/CIM14/IEC61968/Common/Location.py b/CIM14/IEC61968/Common/Location.py
index 1813e89..854a692 100644
--- a/CIM14/IEC61968/Common/Location.py
+++ b/CIM14/IEC61968/Common/Location.py
@@ -161,7 +161,7 @@ class Location(IdentifiedObject):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.Locations if q != self]
-            self._Measurements._Locations = filtered
+            p._Locations = filtered
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
diff --git a/CIM14/IEC61968/Common/UserAttribute.py b/CIM14/IEC61968/Common/UserAttribute.py
index da79f2f..6f65e73 100644
--- a/CIM14/IEC61968/Common/UserAttribute.py
+++ b/CIM14/IEC61968/Common/UserAttribute.py
@@ -68,7 +68,7 @@ class UserAttribute(Element):
     def setPropertyAssets(self, value):
         for p in self._PropertyAssets:
             filtered = [q for q in p.Properties if q != self]
-            self._PropertyAssets._Properties = filtered
+            p._Properties = filtered
         for r in value:
             if self not in r._Properties:
                 r._Properties.append(self)
@@ -112,7 +112,7 @@ class UserAttribute(Element):
     def setRatingAssets(self, value):
         for p in self._RatingAssets:
             filtered = [q for q in p.Ratings if q != self]
-            self._RatingAssets._Ratings = filtered
+            p._Ratings = filtered
         for r in value:
             if self not in r._Ratings:
                 r._Ratings.append(self)
diff --git a/CIM14/IEC61968/Customers/Customer.py b/CIM14/IEC61968/Customers/Customer.py
index e9c322e..e289854 100644
--- a/CIM14/IEC61968/Customers/Customer.py
+++ b/CIM14/IEC61968/Customers/Customer.py
@@ -79,7 +79,7 @@ class Customer(Organisation):
     def setWorks(self, value):
         for p in self._Works:
             filtered = [q for q in p.Customers if q != self]
-            self._Works._Customers = filtered
+            p._Customers = filtered
         for r in value:
             if self not in r._Customers:
                 r._Customers.append(self)
diff --git a/CIM14/IEC61968/Customers/CustomerAgreement.py b/CIM14/IEC61968/Customers/CustomerAgreement.py
index 4d90a32..d8c8d9a 100644
--- a/CIM14/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM14/IEC61968/Customers/CustomerAgreement.py
@@ -139,7 +139,7 @@ class CustomerAgreement(Agreement):
     def setPricingStructures(self, value):
         for p in self._PricingStructures:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._PricingStructures._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
@@ -167,7 +167,7 @@ class CustomerAgreement(Agreement):
     def setServiceLocations(self, value):
         for p in self._ServiceLocations:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._ServiceLocations._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
@@ -328,7 +328,7 @@ class CustomerAgreement(Agreement):
     def setEquipments(self, value):
         for p in self._Equipments:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._Equipments._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
diff --git a/CIM14/IEC61968/Customers/PricingStructure.py b/CIM14/IEC61968/Customers/PricingStructure.py
index 6d3c1cd..c636841 100644
--- a/CIM14/IEC61968/Customers/PricingStructure.py
+++ b/CIM14/IEC61968/Customers/PricingStructure.py
@@ -110,7 +110,7 @@ class PricingStructure(Document):
     def setServiceDeliveryPoints(self, value):
         for p in self._ServiceDeliveryPoints:
             filtered = [q for q in p.PricingStructures if q != self]
-            self._ServiceDeliveryPoints._PricingStructures = filtered
+            p._PricingStructures = filtered
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
@@ -138,7 +138,7 @@ class PricingStructure(Document):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.PricingStructures if q != self]
-            self._CustomerAgreements._PricingStructures = filtered
+            p._PricingStructures = filtered
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
@@ -183,7 +183,7 @@ class PricingStructure(Document):
     def setTariffs(self, value):
         for p in self._Tariffs:
             filtered = [q for q in p.PricingStructures if q != self]
-            self._Tariffs._PricingStructures = filtered
+            p._PricingStructures = filtered
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
diff --git a/CIM14/IEC61968/Customers/ServiceLocation.py b/CIM14/IEC61968/Customers/ServiceLocation.py
index aece2d9..f9688d5 100644
--- a/CIM14/IEC61968/Customers/ServiceLocation.py
+++ b/CIM14/IEC61968/Customers/ServiceLocation.py
@@ -90,7 +90,7 @@ class ServiceLocation(Location):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.ServiceLocations if q != self]
-            self._CustomerAgreements._ServiceLocations = filtered
+            p._ServiceLocations = filtered
         for r in value:
             if self not in r._ServiceLocations:
                 r._ServiceLocations.append(self)
diff --git a/CIM14/IEC61968/Customers/Tariff.py b/CIM14/IEC61968/Customers/Tariff.py
index 8a7fefc..57bd5b1 100644
--- a/CIM14/IEC61968/Customers/Tariff.py
+++ b/CIM14/IEC61968/Customers/Tariff.py
@@ -61,7 +61,7 @@ class Tariff(Document):
     def setTariffProfiles(self, value):
         for p in self._TariffProfiles:
             filtered = [q for q in p.Tariffs if q != self]
-            self._TariffProfiles._Tariffs = filtered
+            p._Tariffs = filtered
         for r in value:
             if self not in r._Tariffs:
                 r._Tariffs.append(self)
@@ -89,7 +89,7 @@ class Tariff(Document):
     def setPricingStructures(self, value):
         for p in self._PricingStructures:
             filtered = [q for q in p.Tariffs if q != self]
-            self._PricingStructures._Tariffs = filtered
+            p._Tariffs = filtered
         for r in value:
             if self not in r._Tariffs:
                 r._Tariffs.append(self)
diff --git a/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py b/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
index 6376608..cb9108a 100644
--- a/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
+++ b/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
@@ -82,7 +82,7 @@ class ConnectDisconnectFunction(DeviceFunction):
     def setSwitches(self, value):
         for p in self._Switches:
             filtered = [q for q in p.ConnectDisconnectFunctions if q != self]
-            self._Switches._ConnectDisconnectFunctions = filtered
+            p._ConnectDisconnectFunctions = filtered
         for r in value:
             if self not in r._ConnectDisconnectFunctions:
                 r._ConnectDisconnectFunctions.append(self)
diff --git a/CIM14/IEC61968/Metering/EndDeviceAsset.py b/CIM14/IEC61968/Metering/EndDeviceAsset.py
index 51237e2..84adc59 100644
--- a/CIM14/IEC61968/Metering/EndDeviceAsset.py
+++ b/CIM14/IEC61968/Metering/EndDeviceAsset.py
@@ -133,7 +133,7 @@ class EndDeviceAsset(AssetContainer):
     def setEndDeviceGroups(self, value):
         for p in self._EndDeviceGroups:
             filtered = [q for q in p.EndDeviceAssets if q != self]
-            self._EndDeviceGroups._EndDeviceAssets = filtered
+            p._EndDeviceAssets = filtered
         for r in value:
             if self not in r._EndDeviceAssets:
                 r._EndDeviceAssets.append(self)
diff --git a/CIM14/IEC61968/Metering/EndDeviceGroup.py b/CIM14/IEC61968/Metering/EndDeviceGroup.py
index d23003a..430b0b8 100644
--- a/CIM14/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM14/IEC61968/Metering/EndDeviceGroup.py
@@ -61,7 +61,7 @@ class EndDeviceGroup(IdentifiedObject):
     def setEndDeviceAssets(self, value):
         for p in self._EndDeviceAssets:
             filtered = [q for q in p.EndDeviceGroups if q != self]
-            self._EndDeviceAssets._EndDeviceGroups = filtered
+            p._EndDeviceGroups = filtered
         for r in value:
             if self not in r._EndDeviceGroups:
                 r._EndDeviceGroups.append(self)
diff --git a/CIM14/IEC61968/Metering/IntervalBlock.py b/CIM14/IEC61968/Metering/IntervalBlock.py
index bf0d16b..1847fe2 100644
--- a/CIM14/IEC61968/Metering/IntervalBlock.py
+++ b/CIM14/IEC61968/Metering/IntervalBlock.py
@@ -112,7 +112,7 @@ class IntervalBlock(Element):
     def setIntervalReadings(self, value):
         for p in self._IntervalReadings:
             filtered = [q for q in p.IntervalBlocks if q != self]
-            self._IntervalReadings._IntervalBlocks = filtered
+            p._IntervalBlocks = filtered
         for r in value:
             if self not in r._IntervalBlocks:
                 r._IntervalBlocks.append(self)
diff --git a/CIM14/IEC61968/Metering/IntervalReading.py b/CIM14/IEC61968/Metering/IntervalReading.py
index b721b58..bdccbc3 100644
--- a/CIM14/IEC61968/Metering/IntervalReading.py
+++ b/CIM14/IEC61968/Metering/IntervalReading.py
@@ -78,7 +78,7 @@ class IntervalReading(MeasurementValue):
     def setIntervalBlocks(self, value):
         for p in self._IntervalBlocks:
             filtered = [q for q in p.IntervalReadings if q != self]
-            self._IntervalBlocks._IntervalReadings = filtered
+            p._IntervalReadings = filtered
         for r in value:
             if self not in r._IntervalReadings:
                 r._IntervalReadings.append(self)
diff --git a/CIM14/IEC61968/Metering/MeterReading.py b/CIM14/IEC61968/Metering/MeterReading.py
index a05a0ab..7e99bf5 100644
--- a/CIM14/IEC61968/Metering/MeterReading.py
+++ b/CIM14/IEC61968/Metering/MeterReading.py
@@ -148,7 +148,7 @@ class MeterReading(IdentifiedObject):
     def setReadings(self, value):
         for p in self._Readings:
             filtered = [q for q in p.MeterReadings if q != self]
-            self._Readings._MeterReadings = filtered
+            p._MeterReadings = filtered
         for r in value:
             if self not in r._MeterReadings:
                 r._MeterReadings.append(self)
diff --git a/CIM14/IEC61968/Metering/Reading.py b/CIM14/IEC61968/Metering/Reading.py
index 0f56df2..7860fb3 100644
--- a/CIM14/IEC61968/Metering/Reading.py
+++ b/CIM14/IEC61968/Metering/Reading.py
@@ -119,7 +119,7 @@ class Reading(MeasurementValue):
     def setMeterReadings(self, value):
         for p in self._MeterReadings:
             filtered = [q for q in p.Readings if q != self]
-            self._MeterReadings._Readings = filtered
+            p._Readings = filtered
         for r in value:
             if self not in r._Readings:
                 r._Readings.append(self)
diff --git a/CIM14/IEC61968/Metering/SDPLocation.py b/CIM14/IEC61968/Metering/SDPLocation.py
index 66fe1e2..aa274f7 100644
--- a/CIM14/IEC61968/Metering/SDPLocation.py
+++ b/CIM14/IEC61968/Metering/SDPLocation.py
@@ -65,7 +65,7 @@ class SDPLocation(Location):
     def setServiceDeliveryPoints(self, value):
         for p in self._ServiceDeliveryPoints:
             filtered = [q for q in p.SDPLocations if q != self]
-            self._ServiceDeliveryPoints._SDPLocations = filtered
+            p._SDPLocations = filtered
         for r in value:
             if self not in r._SDPLocations:
                 r._SDPLocations.append(self)
diff --git a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
index 06946f0..6b00ea9 100644
--- a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -125,7 +125,7 @@ class ServiceDeliveryPoint(IdentifiedObject):
     def setPricingStructures(self, value):
         for p in self._PricingStructures:
             filtered = [q for q in p.ServiceDeliveryPoints if q != self]
-            self._PricingStructures._ServiceDeliveryPoints = filtered
+            p._ServiceDeliveryPoints = filtered
         for r in value:
             if self not in r._ServiceDeliveryPoints:
                 r._ServiceDeliveryPoints.append(self)
@@ -170,7 +170,7 @@ class ServiceDeliveryPoint(IdentifiedObject):
     def setSDPLocations(self, value):
         for p in self._SDPLocations:
             filtered = [q for q in p.ServiceDeliveryPoints if q != self]
-            self._SDPLocations._ServiceDeliveryPoints = filtered
+            p._ServiceDeliveryPoints = filtered
         for r in value:
             if self not in r._ServiceDeliveryPoints:
                 r._ServiceDeliveryPoints.append(self)
diff --git a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
index 779fa95..705800c 100644
--- a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -74,7 +74,7 @@ class AuxiliaryAccount(Document):
     def setCharges(self, value):
         for p in self._Charges:
             filtered = [q for q in p.AuxiliaryAccounts if q != self]
-            self._Charges._AuxiliaryAccounts = filtered
+            p._AuxiliaryAccounts = filtered
         for r in value:
             if self not in r._AuxiliaryAccounts:
                 r._AuxiliaryAccounts.append(self)
diff --git a/CIM14/IEC61968/PaymentMetering/Charge.py b/CIM14/IEC61968/PaymentMetering/Charge.py
index 1eb6276..f4492b6 100644
--- a/CIM14/IEC61968/PaymentMetering/Charge.py
+++ b/CIM14/IEC61968/PaymentMetering/Charge.py
@@ -76,7 +76,7 @@ class Charge(IdentifiedObject):
     def setAuxiliaryAccounts(self, value):
         for p in self._AuxiliaryAccounts:
             filtered = [q for q in p.Charges if q != self]
-            self._AuxiliaryAccounts._Charges = filtered
+            p._Charges = filtered
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
@@ -144,7 +144,7 @@ class Charge(IdentifiedObject):
     def setConsumptionTariffIntervals(self, value):
         for p in self._ConsumptionTariffIntervals:
             filtered = [q for q in p.Charges if q != self]
-            self._ConsumptionTariffIntervals._Charges = filtered
+            p._Charges = filtered
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
@@ -172,7 +172,7 @@ class Charge(IdentifiedObject):
     def setTimeTariffIntervals(self, value):
         for p in self._TimeTariffIntervals:
             filtered = [q for q in p.Charges if q != self]
-            self._TimeTariffIntervals._Charges = filtered
+            p._Charges = filtered
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
diff --git a/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py b/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
index 4005ae4..87f3dc1 100644
--- a/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
+++ b/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
@@ -61,7 +61,7 @@ class ConsumptionTariffInterval(Element):
     def setTariffProfiles(self, value):
         for p in self._TariffProfiles:
             filtered = [q for q in p.ConsumptionTariffIntervals if q != self]
-            self._TariffProfiles._ConsumptionTariffIntervals = filtered
+            p._ConsumptionTariffIntervals = filtered
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
@@ -89,7 +89,7 @@ class ConsumptionTariffInterval(Element):
     def setCharges(self, value):
         for p in self._Charges:
             filtered = [q for q in p.ConsumptionTariffIntervals if q != self]
-            self._Charges._ConsumptionTariffIntervals = filtered
+            p._ConsumptionTariffIntervals = filtered
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
diff --git a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
index 05e463d..7c70c37 100644
--- a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
@@ -128,7 +128,7 @@ class MerchantAccount(Document):
     def setTransactors(self, value):
         for p in self._Transactors:
             filtered = [q for q in p.MerchantAccounts if q != self]
-            self._Transactors._MerchantAccounts = filtered
+            p._MerchantAccounts = filtered
         for r in value:
             if self not in r._MerchantAccounts:
                 r._MerchantAccounts.append(self)
diff --git a/CIM14/IEC61968/PaymentMetering/TariffProfile.py b/CIM14/IEC61968/PaymentMetering/TariffProfile.py
index 98f5179..befec40 100644
--- a/CIM14/IEC61968/PaymentMetering/TariffProfile.py
+++ b/CIM14/IEC61968/PaymentMetering/TariffProfile.py
@@ -61,7 +61,7 @@ class TariffProfile(Document):
     def setConsumptionTariffIntervals(self, value):
         for p in self._ConsumptionTariffIntervals:
             filtered = [q for q in p.TariffProfiles if q != self]
-            self._ConsumptionTariffIntervals._TariffProfiles = filtered
+            p._TariffProfiles = filtered
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
@@ -89,7 +89,7 @@ class TariffProfile(Document):
     def setTimeTariffIntervals(self, value):
         for p in self._TimeTariffIntervals:
             filtered = [q for q in p.TariffProfiles if q != self]
-            self._TimeTariffIntervals._TariffProfiles = filtered
+            p._TariffProfiles = filtered
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
@@ -117,7 +117,7 @@ class TariffProfile(Document):
     def setTariffs(self, value):
         for p in self._Tariffs:
             filtered = [q for q in p.TariffProfiles if q != self]
-            self._Tariffs._TariffProfiles = filtered
+            p._TariffProfiles = filtered
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
diff --git a/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py b/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
index c76439a..aa8ba51 100644
--- a/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
+++ b/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
@@ -61,7 +61,7 @@ class TimeTariffInterval(Element):
     def setTariffProfiles(self, value):
         for p in self._TariffProfiles:
             filtered = [q for q in p.TimeTariffIntervals if q != self]
-            self._TariffProfiles._TimeTariffIntervals = filtered
+            p._TimeTariffIntervals = filtered
         for r in value:
             if self not in r._TimeTariffIntervals:
                 r._TimeTariffIntervals.append(self)
@@ -89,7 +89,7 @@ class TimeTariffInterval(Element):
     def setCharges(self, value):
         for p in self._Charges:
             filtered = [q for q in p.TimeTariffIntervals if q != self]
-            self._Charges._TimeTariffIntervals = filtered
+            p._TimeTariffIntervals = filtered
         for r in value:
             if self not in r._TimeTariffIntervals:
                 r._TimeTariffIntervals.append(self)
diff --git a/CIM14/IEC61968/PaymentMetering/Transactor.py b/CIM14/IEC61968/PaymentMetering/Transactor.py
index ca8afd0..5f7c3cf 100644
--- a/CIM14/IEC61968/PaymentMetering/Transactor.py
+++ b/CIM14/IEC61968/PaymentMetering/Transactor.py
@@ -49,7 +49,7 @@ class Transactor(IdentifiedObject):
     def setMerchantAccounts(self, value):
         for p in self._MerchantAccounts:
             filtered = [q for q in p.Transactors if q != self]
-            self._MerchantAccounts._Transactors = filtered
+            p._Transactors = filtered
         for r in value:
             if self not in r._Transactors:
                 r._Transactors.append(self)
diff --git a/CIM14/IEC61968/Work/Work.py b/CIM14/IEC61968/Work/Work.py
index 80451ca..f0d8f99 100644
--- a/CIM14/IEC61968/Work/Work.py
+++ b/CIM14/IEC61968/Work/Work.py
@@ -61,7 +61,7 @@ class Work(Document):
     def setCustomers(self, value):
         for p in self._Customers:
             filtered = [q for q in p.Works if q != self]
-            self._Customers._Works = filtered
+            p._Works = filtered
         for r in value:
             if self not in r._Works:
                 r._Works.append(self)
diff --git a/CIM14/IEC61970/Core/ConductingEquipment.py b/CIM14/IEC61970/Core/ConductingEquipment.py
index a9f0fb4..b28c305 100644
--- a/CIM14/IEC61970/Core/ConductingEquipment.py
+++ b/CIM14/IEC61970/Core/ConductingEquipment.py
@@ -144,7 +144,7 @@ class ConductingEquipment(Equipment):
     def setProtectionEquipments(self, value):
         for p in self._ProtectionEquipments:
             filtered = [q for q in p.ConductingEquipments if q != self]
-            self._ProtectionEquipments._ConductingEquipments = filtered
+            p._ConductingEquipments = filtered
         for r in value:
             if self not in r._ConductingEquipments:
                 r._ConductingEquipments.append(self)
diff --git a/CIM14/IEC61970/Core/Equipment.py b/CIM14/IEC61970/Core/Equipment.py
index 3a2bed5..cd2840e 100644
--- a/CIM14/IEC61970/Core/Equipment.py
+++ b/CIM14/IEC61970/Core/Equipment.py
@@ -127,7 +127,7 @@ class Equipment(PowerSystemResource):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.Equipments if q != self]
-            self._CustomerAgreements._Equipments = filtered
+            p._Equipments = filtered
         for r in value:
             if self not in r._Equipments:
                 r._Equipments.append(self)
diff --git a/CIM14/IEC61970/Core/PowerSystemResource.py b/CIM14/IEC61970/Core/PowerSystemResource.py
index 82c6130..5d743e1 100644
--- a/CIM14/IEC61970/Core/PowerSystemResource.py
+++ b/CIM14/IEC61970/Core/PowerSystemResource.py
@@ -98,7 +98,7 @@ class PowerSystemResource(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._Assets._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
@@ -125,7 +125,7 @@ class PowerSystemResource(IdentifiedObject):
     def setPsrLists(self, value):
         for p in self._PsrLists:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._PsrLists._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
@@ -211,7 +211,7 @@ class PowerSystemResource(IdentifiedObject):
     def setReportingGroup(self, value):
         for p in self._ReportingGroup:
             filtered = [q for q in p.PowerSystemResource if q != self]
-            self._ReportingGroup._PowerSystemResource = filtered
+            p._PowerSystemResource = filtered
         for r in value:
             if self not in r._PowerSystemResource:
                 r._PowerSystemResource.append(self)
diff --git a/CIM14/IEC61970/Core/PsrList.py b/CIM14/IEC61970/Core/PsrList.py
index 57cb5c2..0b990ee 100644
--- a/CIM14/IEC61970/Core/PsrList.py
+++ b/CIM14/IEC61970/Core/PsrList.py
@@ -52,7 +52,7 @@ class PsrList(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.PsrLists if q != self]
-            self._PowerSystemResources._PsrLists = filtered
+            p._PsrLists = filtered
         for r in value:
             if self not in r._PsrLists:
                 r._PsrLists.append(self)
diff --git a/CIM14/IEC61970/Core/ReportingGroup.py b/CIM14/IEC61970/Core/ReportingGroup.py
index 1359993..13c60b4 100644
--- a/CIM14/IEC61970/Core/ReportingGroup.py
+++ b/CIM14/IEC61970/Core/ReportingGroup.py
@@ -120,7 +120,7 @@ class ReportingGroup(IdentifiedObject):
     def setPowerSystemResource(self, value):
         for p in self._PowerSystemResource:
             filtered = [q for q in p.ReportingGroup if q != self]
-            self._PowerSystemResource._ReportingGroup = filtered
+            p._ReportingGroup = filtered
         for r in value:
             if self not in r._ReportingGroup:
                 r._ReportingGroup.append(self)
diff --git a/CIM14/IEC61970/Dynamics/BlockOutputReference.py b/CIM14/IEC61970/Dynamics/BlockOutputReference.py
index 58b4b2a..991bbf8 100644
--- a/CIM14/IEC61970/Dynamics/BlockOutputReference.py
+++ b/CIM14/IEC61970/Dynamics/BlockOutputReference.py
@@ -68,7 +68,7 @@ class BlockOutputReference(MetaBlockConnectable):
     def setmetaBlockReference0(self, value):
         for p in self._metaBlockReference0:
             filtered = [q for q in p.blockOutputReference0 if q != self]
-            self._metaBlockReference0._blockOutputReference0 = filtered
+            p._blockOutputReference0 = filtered
         for r in value:
             if self not in r._blockOutputReference0:
                 r._blockOutputReference0.append(self)
diff --git a/CIM14/IEC61970/Dynamics/CompositeModel.py b/CIM14/IEC61970/Dynamics/CompositeModel.py
index 79ba127..865a47a 100644
--- a/CIM14/IEC61970/Dynamics/CompositeModel.py
+++ b/CIM14/IEC61970/Dynamics/CompositeModel.py
@@ -46,7 +46,7 @@ class CompositeModel(Element):
     def setslotReference0(self, value):
         for p in self._slotReference0:
             filtered = [q for q in p.compositeModel0 if q != self]
-            self._slotReference0._compositeModel0 = filtered
+            p._compositeModel0 = filtered
         for r in value:
             if self not in r._compositeModel0:
                 r._compositeModel0.append(self)
diff --git a/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py b/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
index 74cd190..6e6e16f 100644
--- a/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
+++ b/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
@@ -52,7 +52,7 @@ class GenEquiv(RotatingMachine):
     def setsynchronousMachine0(self, value):
         for p in self._synchronousMachine0:
             filtered = [q for q in p.genEquiv0 if q != self]
-            self._synchronousMachine0._genEquiv0 = filtered
+            p._genEquiv0 = filtered
         for r in value:
             if self not in r._genEquiv0:
                 r._genEquiv0.append(self)
diff --git a/CIM14/IEC61970/Dynamics/Generators/GenLoad.py b/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
index 7b717c9..32f9b9f 100644
--- a/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
+++ b/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
@@ -48,7 +48,7 @@ class GenLoad(RegulatingCondEq):
     def setsynchronousMachine0(self, value):
         for p in self._synchronousMachine0:
             filtered = [q for q in p.genLoad0 if q != self]
-            self._synchronousMachine0._genLoad0 = filtered
+            p._genLoad0 = filtered
         for r in value:
             if self not in r._genLoad0:
                 r._genLoad0.append(self)
diff --git a/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py b/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
index 2dca998..f133c33 100644
--- a/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
+++ b/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
@@ -48,7 +48,7 @@ class AggregateLoad(PowerSystemResource):
     def setenergyConsumer0(self, value):
         for p in self._energyConsumer0:
             filtered = [q for q in p.aggregateLoad0 if q != self]
-            self._energyConsumer0._aggregateLoad0 = filtered
+            p._aggregateLoad0 = filtered
         for r in value:
             if self not in r._aggregateLoad0:
                 r._aggregateLoad0.append(self)
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockReference.py b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
index a015c3c..e51d4ac 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockReference.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
@@ -121,7 +121,7 @@ class MetaBlockReference(IdentifiedObject):
     def setblockOutputReference0(self, value):
         for p in self._blockOutputReference0:
             filtered = [q for q in p.metaBlockReference0 if q != self]
-            self._blockOutputReference0._metaBlockReference0 = filtered
+            p._metaBlockReference0 = filtered
         for r in value:
             if self not in r._metaBlockReference0:
                 r._metaBlockReference0.append(self)
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockSignal.py b/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
index 37eeb24..8493083 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
@@ -62,7 +62,7 @@ class MetaBlockSignal(IdentifiedObject):
     def setmetaBlockSignal1(self, value):
         for p in self._metaBlockSignal1:
             filtered = [q for q in p.metaBlockSignal if q != self]
-            self._metaBlockSignal1._metaBlockSignal = filtered
+            p._metaBlockSignal = filtered
         for r in value:
             if self not in r._metaBlockSignal:
                 r._metaBlockSignal.append(self)
@@ -89,7 +89,7 @@ class MetaBlockSignal(IdentifiedObject):
     def setmetaBlockSignal(self, value):
         for p in self._metaBlockSignal:
             filtered = [q for q in p.metaBlockSignal1 if q != self]
-            self._metaBlockSignal._metaBlockSignal1 = filtered
+            p._metaBlockSignal1 = filtered
         for r in value:
             if self not in r._metaBlockSignal1:
                 r._metaBlockSignal1.append(self)
diff --git a/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py b/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
index 5d98b71..1f321e3 100644
--- a/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
+++ b/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
@@ -48,7 +48,7 @@ class MechanicalLoad(PowerSystemResource):
     def setrotatingMachine0(self, value):
         for p in self._rotatingMachine0:
             filtered = [q for q in p.mechanicalLoad0 if q != self]
-            self._rotatingMachine0._mechanicalLoad0 = filtered
+            p._mechanicalLoad0 = filtered
         for r in value:
             if self not in r._mechanicalLoad0:
                 r._mechanicalLoad0.append(self)
diff --git a/CIM14/IEC61970/Dynamics/RotatingMachine.py b/CIM14/IEC61970/Dynamics/RotatingMachine.py
index 5a1e1c6..a89d60a 100644
--- a/CIM14/IEC61970/Dynamics/RotatingMachine.py
+++ b/CIM14/IEC61970/Dynamics/RotatingMachine.py
@@ -80,7 +80,7 @@ class RotatingMachine(RegulatingCondEq):
     def setmechanicalLoad0(self, value):
         for p in self._mechanicalLoad0:
             filtered = [q for q in p.rotatingMachine0 if q != self]
-            self._mechanicalLoad0._rotatingMachine0 = filtered
+            p._rotatingMachine0 = filtered
         for r in value:
             if self not in r._rotatingMachine0:
                 r._rotatingMachine0.append(self)
diff --git a/CIM14/IEC61970/Dynamics/SlotReference.py b/CIM14/IEC61970/Dynamics/SlotReference.py
index f08a7e9..ce8dd18 100644
--- a/CIM14/IEC61970/Dynamics/SlotReference.py
+++ b/CIM14/IEC61970/Dynamics/SlotReference.py
@@ -92,7 +92,7 @@ class SlotReference(IdentifiedObject):
     def setcompositeModel0(self, value):
         for p in self._compositeModel0:
             filtered = [q for q in p.slotReference0 if q != self]
-            self._compositeModel0._slotReference0 = filtered
+            p._slotReference0 = filtered
         for r in value:
             if self not in r._slotReference0:
                 r._slotReference0.append(self)
diff --git a/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py b/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
index ea49d18..272a22b 100644
--- a/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
+++ b/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
@@ -119,7 +119,7 @@ class GovHydro1(TurbineGovernor):
     def setsynchronousMachine0(self, value):
         for p in self._synchronousMachine0:
             filtered = [q for q in p.govHydro10 if q != self]
-            self._synchronousMachine0._govHydro10 = filtered
+            p._govHydro10 = filtered
         for r in value:
             if self not in r._govHydro10:
                 r._govHydro10.append(self)
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py b/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
index e390fa0..43d3ae2 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
@@ -53,7 +53,7 @@ class PrimeMover(PowerSystemResource):
     def setSynchronousMachines(self, value):
         for p in self._SynchronousMachines:
             filtered = [q for q in p.PrimeMovers if q != self]
-            self._SynchronousMachines._PrimeMovers = filtered
+            p._PrimeMovers = filtered
         for r in value:
             if self not in r._PrimeMovers:
                 r._PrimeMovers.append(self)
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py b/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
index 75f083b..2d55928 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
@@ -53,7 +53,7 @@ class SteamSupply(PowerSystemResource):
     def setSteamTurbines(self, value):
         for p in self._SteamTurbines:
             filtered = [q for q in p.SteamSupplys if q != self]
-            self._SteamTurbines._SteamSupplys = filtered
+            p._SteamSupplys = filtered
         for r in value:
             if self not in r._SteamSupplys:
                 r._SteamSupplys.append(self)
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py b/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
index 142fa15..1dffc55 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
@@ -97,7 +97,7 @@ class SteamTurbine(PrimeMover):
     def setSteamSupplys(self, value):
         for p in self._SteamSupplys:
             filtered = [q for q in p.SteamTurbines if q != self]
-            self._SteamSupplys._SteamTurbines = filtered
+            p._SteamTurbines = filtered
         for r in value:
             if self not in r._SteamTurbines:
                 r._SteamTurbines.append(self)
diff --git a/CIM14/IEC61970/Meas/Accumulator.py b/CIM14/IEC61970/Meas/Accumulator.py
index eb13204..0d613b9 100644
--- a/CIM14/IEC61970/Meas/Accumulator.py
+++ b/CIM14/IEC61970/Meas/Accumulator.py
@@ -57,7 +57,7 @@ class Accumulator(Measurement):
     def setLimitSets(self, value):
         for p in self._LimitSets:
             filtered = [q for q in p.Measurements if q != self]
-            self._LimitSets._Measurements = filtered
+            p._Measurements = filtered
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
diff --git a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
index 9401643..1a4408f 100644
--- a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
@@ -53,7 +53,7 @@ class AccumulatorLimitSet(LimitSet):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.LimitSets if q != self]
-            self._Measurements._LimitSets = filtered
+            p._LimitSets = filtered
         for r in value:
             if self not in r._LimitSets:
                 r._LimitSets.append(self)
diff --git a/CIM14/IEC61970/Meas/Analog.py b/CIM14/IEC61970/Meas/Analog.py
index 63707ab..a5517b3 100644
--- a/CIM14/IEC61970/Meas/Analog.py
+++ b/CIM14/IEC61970/Meas/Analog.py
@@ -73,7 +73,7 @@ class Analog(Measurement):
     def setLimitSets(self, value):
         for p in self._LimitSets:
             filtered = [q for q in p.Measurements if q != self]
-            self._LimitSets._Measurements = filtered
+            p._Measurements = filtered
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
diff --git a/CIM14/IEC61970/Meas/AnalogLimitSet.py b/CIM14/IEC61970/Meas/AnalogLimitSet.py
index 356f642..ca3bc4a 100644
--- a/CIM14/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM14/IEC61970/Meas/AnalogLimitSet.py
@@ -53,7 +53,7 @@ class AnalogLimitSet(LimitSet):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.LimitSets if q != self]
-            self._Measurements._LimitSets = filtered
+            p._LimitSets = filtered
         for r in value:
             if self not in r._LimitSets:
                 r._LimitSets.append(self)
diff --git a/CIM14/IEC61970/Meas/Measurement.py b/CIM14/IEC61970/Meas/Measurement.py
index 68cccca..29c8b38 100644
--- a/CIM14/IEC61970/Meas/Measurement.py
+++ b/CIM14/IEC61970/Meas/Measurement.py
@@ -93,7 +93,7 @@ class Measurement(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.Measurements if q != self]
-            self._Locations._Measurements = filtered
+            p._Measurements = filtered
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
@@ -191,7 +191,7 @@ class Measurement(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.Measurements if q != self]
-            self._Documents._Measurements = filtered
+            p._Measurements = filtered
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
diff --git a/CIM14/IEC61970/Outage/SwitchingOperation.py b/CIM14/IEC61970/Outage/SwitchingOperation.py
index a9182df..53ef81e 100644
--- a/CIM14/IEC61970/Outage/SwitchingOperation.py
+++ b/CIM14/IEC61970/Outage/SwitchingOperation.py
@@ -61,7 +61,7 @@ class SwitchingOperation(IdentifiedObject):
     def setSwitches(self, value):
         for p in self._Switches:
             filtered = [q for q in p.SwitchingOperations if q != self]
-            self._Switches._SwitchingOperations = filtered
+            p._SwitchingOperations = filtered
         for r in value:
             if self not in r._SwitchingOperations:
                 r._SwitchingOperations.append(self)
diff --git a/CIM14/IEC61970/Protection/ProtectionEquipment.py b/CIM14/IEC61970/Protection/ProtectionEquipment.py
index 48e9032..643a191 100644
--- a/CIM14/IEC61970/Protection/ProtectionEquipment.py
+++ b/CIM14/IEC61970/Protection/ProtectionEquipment.py
@@ -97,7 +97,7 @@ class ProtectionEquipment(Equipment):
     def setConductingEquipments(self, value):
         for p in self._ConductingEquipments:
             filtered = [q for q in p.ProtectionEquipments if q != self]
-            self._ConductingEquipments._ProtectionEquipments = filtered
+            p._ProtectionEquipments = filtered
         for r in value:
             if self not in r._ProtectionEquipments:
                 r._ProtectionEquipments.append(self)
diff --git a/CIM14/IEC61970/SCADA/CommunicationLink.py b/CIM14/IEC61970/SCADA/CommunicationLink.py
index c6cdbb4..1b50d87 100644
--- a/CIM14/IEC61970/SCADA/CommunicationLink.py
+++ b/CIM14/IEC61970/SCADA/CommunicationLink.py
@@ -49,7 +49,7 @@ class CommunicationLink(PowerSystemResource):
     def setRemoteUnits(self, value):
         for p in self._RemoteUnits:
             filtered = [q for q in p.CommunicationLinks if q != self]
-            self._RemoteUnits._CommunicationLinks = filtered
+            p._CommunicationLinks = filtered
         for r in value:
             if self not in r._CommunicationLinks:
                 r._CommunicationLinks.append(self)
diff --git a/CIM14/IEC61970/SCADA/RemoteUnit.py b/CIM14/IEC61970/SCADA/RemoteUnit.py
index ca329b0..1ad1d99 100644
--- a/CIM14/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM14/IEC61970/SCADA/RemoteUnit.py
@@ -57,7 +57,7 @@ class RemoteUnit(PowerSystemResource):
     def setCommunicationLinks(self, value):
         for p in self._CommunicationLinks:
             filtered = [q for q in p.RemoteUnits if q != self]
-            self._CommunicationLinks._RemoteUnits = filtered
+            p._RemoteUnits = filtered
         for r in value:
             if self not in r._RemoteUnits:
                 r._RemoteUnits.append(self)
diff --git a/CIM14/IEC61970/Wires/EnergyConsumer.py b/CIM14/IEC61970/Wires/EnergyConsumer.py
index 22c75c3..4d59f32 100644
--- a/CIM14/IEC61970/Wires/EnergyConsumer.py
+++ b/CIM14/IEC61970/Wires/EnergyConsumer.py
@@ -80,7 +80,7 @@ class EnergyConsumer(ConductingEquipment):
     def setaggregateLoad0(self, value):
         for p in self._aggregateLoad0:
             filtered = [q for q in p.energyConsumer0 if q != self]
-            self._aggregateLoad0._energyConsumer0 = filtered
+            p._energyConsumer0 = filtered
         for r in value:
             if self not in r._energyConsumer0:
                 r._energyConsumer0.append(self)
diff --git a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
index 859ebf3..b960720 100644
--- a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -82,7 +82,7 @@ class ReactiveCapabilityCurve(Curve):
     def setSynchronousMachines(self, value):
         for p in self._SynchronousMachines:
             filtered = [q for q in p.ReactiveCapabilityCurves if q != self]
-            self._SynchronousMachines._ReactiveCapabilityCurves = filtered
+            p._ReactiveCapabilityCurves = filtered
         for r in value:
             if self not in r._ReactiveCapabilityCurves:
                 r._ReactiveCapabilityCurves.append(self)
diff --git a/CIM14/IEC61970/Wires/Switch.py b/CIM14/IEC61970/Wires/Switch.py
index e0f2e2c..0a140ba 100644
--- a/CIM14/IEC61970/Wires/Switch.py
+++ b/CIM14/IEC61970/Wires/Switch.py
@@ -77,7 +77,7 @@ class Switch(ConductingEquipment):
     def setSwitchingOperations(self, value):
         for p in self._SwitchingOperations:
             filtered = [q for q in p.Switches if q != self]
-            self._SwitchingOperations._Switches = filtered
+            p._Switches = filtered
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
@@ -121,7 +121,7 @@ class Switch(ConductingEquipment):
     def setConnectDisconnectFunctions(self, value):
         for p in self._ConnectDisconnectFunctions:
             filtered = [q for q in p.Switches if q != self]
-            self._ConnectDisconnectFunctions._Switches = filtered
+            p._Switches = filtered
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
diff --git a/CIM14/IEC61970/Wires/SynchronousMachine.py b/CIM14/IEC61970/Wires/SynchronousMachine.py
index 6ae7d98..8a53906 100644
--- a/CIM14/IEC61970/Wires/SynchronousMachine.py
+++ b/CIM14/IEC61970/Wires/SynchronousMachine.py
@@ -192,7 +192,7 @@ class SynchronousMachine(RotatingMachine):
     def setgenLoad0(self, value):
         for p in self._genLoad0:
             filtered = [q for q in p.synchronousMachine0 if q != self]
-            self._genLoad0._synchronousMachine0 = filtered
+            p._synchronousMachine0 = filtered
         for r in value:
             if self not in r._synchronousMachine0:
                 r._synchronousMachine0.append(self)
@@ -252,7 +252,7 @@ class SynchronousMachine(RotatingMachine):
     def setgovHydro10(self, value):
         for p in self._govHydro10:
             filtered = [q for q in p.synchronousMachine0 if q != self]
-            self._govHydro10._synchronousMachine0 = filtered
+            p._synchronousMachine0 = filtered
         for r in value:
             if self not in r._synchronousMachine0:
                 r._synchronousMachine0.append(self)
@@ -280,7 +280,7 @@ class SynchronousMachine(RotatingMachine):
     def setPrimeMovers(self, value):
         for p in self._PrimeMovers:
             filtered = [q for q in p.SynchronousMachines if q != self]
-            self._PrimeMovers._SynchronousMachines = filtered
+            p._SynchronousMachines = filtered
         for r in value:
             if self not in r._SynchronousMachines:
                 r._SynchronousMachines.append(self)
@@ -324,7 +324,7 @@ class SynchronousMachine(RotatingMachine):
     def setgenEquiv0(self, value):
         for p in self._genEquiv0:
             filtered = [q for q in p.synchronousMachine0 if q != self]
-            self._genEquiv0._synchronousMachine0 = filtered
+            p._synchronousMachine0 = filtered
         for r in value:
             if self not in r._synchronousMachine0:
                 r._synchronousMachine0.append(self)
@@ -352,7 +352,7 @@ class SynchronousMachine(RotatingMachine):
     def setReactiveCapabilityCurves(self, value):
         for p in self._ReactiveCapabilityCurves:
             filtered = [q for q in p.SynchronousMachines if q != self]
-            self._ReactiveCapabilityCurves._SynchronousMachines = filtered
+            p._SynchronousMachines = filtered
         for r in value:
             if self not in r._SynchronousMachines:
                 r._SynchronousMachines.append(self)
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
index f9004b1..2be418e 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
@@ -82,7 +82,7 @@ class TransformerEnd(IdentifiedObject):
     def setToMeshImpedance(self, value):
         for p in self._ToMeshImpedance:
             filtered = [q for q in p.ToTransformerEnd if q != self]
-            self._ToMeshImpedance._ToTransformerEnd = filtered
+            p._ToTransformerEnd = filtered
         for r in value:
             if self not in r._ToTransformerEnd:
                 r._ToTransformerEnd.append(self)
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
index 3bfeb3c..0a58bca 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
@@ -86,7 +86,7 @@ class TransformerMeshImpedance(IdentifiedObject):
     def setToTransformerEnd(self, value):
         for p in self._ToTransformerEnd:
             filtered = [q for q in p.ToMeshImpedance if q != self]
-            self._ToTransformerEnd._ToMeshImpedance = filtered
+            p._ToMeshImpedance = filtered
         for r in value:
             if self not in r._ToMeshImpedance:
                 r._ToMeshImpedance.append(self)
diff --git a/CIM15/IEC61968/AssetModels/ShortCircuitTest.py b/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
index ffe0e4b..433535a 100644
--- a/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
@@ -77,7 +77,7 @@ class ShortCircuitTest(TransformerTest):
     def setGroundedEnds(self, value):
         for p in self._GroundedEnds:
             filtered = [q for q in p.GroundedEndShortCircuitTests if q != self]
-            self._GroundedEnds._GroundedEndShortCircuitTests = filtered
+            p._GroundedEndShortCircuitTests = filtered
         for r in value:
             if self not in r._GroundedEndShortCircuitTests:
                 r._GroundedEndShortCircuitTests.append(self)
diff --git a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
index 5f765c8..ada586f 100644
--- a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
+++ b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
@@ -184,7 +184,7 @@ class TransformerEndInfo(AssetInfo):
     def setToMeshImpedance(self, value):
         for p in self._ToMeshImpedance:
             filtered = [q for q in p.ToTransformerEndInfo if q != self]
-            self._ToMeshImpedance._ToTransformerEndInfo = filtered
+            p._ToTransformerEndInfo = filtered
         for r in value:
             if self not in r._ToTransformerEndInfo:
                 r._ToTransformerEndInfo.append(self)
@@ -271,7 +271,7 @@ class TransformerEndInfo(AssetInfo):
     def setGroundedEndShortCircuitTests(self, value):
         for p in self._GroundedEndShortCircuitTests:
             filtered = [q for q in p.GroundedEnds if q != self]
-            self._GroundedEndShortCircuitTests._GroundedEnds = filtered
+            p._GroundedEnds = filtered
         for r in value:
             if self not in r._GroundedEnds:
                 r._GroundedEnds.append(self)
diff --git a/CIM15/IEC61968/Assets/Asset.py b/CIM15/IEC61968/Assets/Asset.py
index cd5b6c3..94c9618 100644
--- a/CIM15/IEC61968/Assets/Asset.py
+++ b/CIM15/IEC61968/Assets/Asset.py
@@ -213,7 +213,7 @@ class Asset(IdentifiedObject):
     def setMediums(self, value):
         for p in self._Mediums:
             filtered = [q for q in p.Assets if q != self]
-            self._Mediums._Assets = filtered
+            p._Assets = filtered
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
@@ -240,7 +240,7 @@ class Asset(IdentifiedObject):
     def setErpRecDeliveryItems(self, value):
         for p in self._ErpRecDeliveryItems:
             filtered = [q for q in p.Assets if q != self]
-            self._ErpRecDeliveryItems._Assets = filtered
+            p._Assets = filtered
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
@@ -268,7 +268,7 @@ class Asset(IdentifiedObject):
     def setRatings(self, value):
         for p in self._Ratings:
             filtered = [q for q in p.RatingAssets if q != self]
-            self._Ratings._RatingAssets = filtered
+            p._RatingAssets = filtered
         for r in value:
             if self not in r._RatingAssets:
                 r._RatingAssets.append(self)
@@ -388,7 +388,7 @@ class Asset(IdentifiedObject):
     def setReliabilityInfos(self, value):
         for p in self._ReliabilityInfos:
             filtered = [q for q in p.Assets if q != self]
-            self._ReliabilityInfos._Assets = filtered
+            p._Assets = filtered
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
@@ -470,7 +470,7 @@ class Asset(IdentifiedObject):
     def setScheduledEvents(self, value):
         for p in self._ScheduledEvents:
             filtered = [q for q in p.Assets if q != self]
-            self._ScheduledEvents._Assets = filtered
+            p._Assets = filtered
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
@@ -513,7 +513,7 @@ class Asset(IdentifiedObject):
     def setAssetPropertyCurves(self, value):
         for p in self._AssetPropertyCurves:
             filtered = [q for q in p.Assets if q != self]
-            self._AssetPropertyCurves._Assets = filtered
+            p._Assets = filtered
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
@@ -561,7 +561,7 @@ class Asset(IdentifiedObject):
     def setActivityRecords(self, value):
         for p in self._ActivityRecords:
             filtered = [q for q in p.Assets if q != self]
-            self._ActivityRecords._Assets = filtered
+            p._Assets = filtered
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
@@ -609,7 +609,7 @@ class Asset(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.Assets if q != self]
-            self._PowerSystemResources._Assets = filtered
+            p._Assets = filtered
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
@@ -652,7 +652,7 @@ class Asset(IdentifiedObject):
     def setProperties(self, value):
         for p in self._Properties:
             filtered = [q for q in p.PropertyAssets if q != self]
-            self._Properties._PropertyAssets = filtered
+            p._PropertyAssets = filtered
         for r in value:
             if self not in r._PropertyAssets:
                 r._PropertyAssets.append(self)
diff --git a/CIM15/IEC61968/Assets/AssetContainer.py b/CIM15/IEC61968/Assets/AssetContainer.py
index 955500a..c7bd77d 100644
--- a/CIM15/IEC61968/Assets/AssetContainer.py
+++ b/CIM15/IEC61968/Assets/AssetContainer.py
@@ -97,7 +97,7 @@ class AssetContainer(Asset):
     def setLandProperties(self, value):
         for p in self._LandProperties:
             filtered = [q for q in p.AssetContainers if q != self]
-            self._LandProperties._AssetContainers = filtered
+            p._AssetContainers = filtered
         for r in value:
             if self not in r._AssetContainers:
                 r._AssetContainers.append(self)
diff --git a/CIM15/IEC61968/Common/ActivityRecord.py b/CIM15/IEC61968/Common/ActivityRecord.py
index 3112a71..3f4105e 100644
--- a/CIM15/IEC61968/Common/ActivityRecord.py
+++ b/CIM15/IEC61968/Common/ActivityRecord.py
@@ -83,7 +83,7 @@ class ActivityRecord(IdentifiedObject):
     def setErpPersons(self, value):
         for p in self._ErpPersons:
             filtered = [q for q in p.ActivityRecords if q != self]
-            self._ErpPersons._ActivityRecords = filtered
+            p._ActivityRecords = filtered
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
@@ -110,7 +110,7 @@ class ActivityRecord(IdentifiedObject):
     def setOrganisations(self, value):
         for p in self._Organisations:
             filtered = [q for q in p.ActivityRecords if q != self]
-            self._Organisations._ActivityRecords = filtered
+            p._ActivityRecords = filtered
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
@@ -138,7 +138,7 @@ class ActivityRecord(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.ActivityRecords if q != self]
-            self._Documents._ActivityRecords = filtered
+            p._ActivityRecords = filtered
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
@@ -166,7 +166,7 @@ class ActivityRecord(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.ActivityRecords if q != self]
-            self._Assets._ActivityRecords = filtered
+            p._ActivityRecords = filtered
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
diff --git a/CIM15/IEC61968/Common/CoordinateSystem.py b/CIM15/IEC61968/Common/CoordinateSystem.py
index 8c50bd6..6abb2e5 100644
--- a/CIM15/IEC61968/Common/CoordinateSystem.py
+++ b/CIM15/IEC61968/Common/CoordinateSystem.py
@@ -101,7 +101,7 @@ class CoordinateSystem(IdentifiedObject):
     def setGmlDiagramObjects(self, value):
         for p in self._GmlDiagramObjects:
             filtered = [q for q in p.CoordinateSystems if q != self]
-            self._GmlDiagramObjects._CoordinateSystems = filtered
+            p._CoordinateSystems = filtered
         for r in value:
             if self not in r._CoordinateSystems:
                 r._CoordinateSystems.append(self)
diff --git a/CIM15/IEC61968/Common/Document.py b/CIM15/IEC61968/Common/Document.py
index 9f806d9..47270ef 100644
--- a/CIM15/IEC61968/Common/Document.py
+++ b/CIM15/IEC61968/Common/Document.py
@@ -172,7 +172,7 @@ class Document(IdentifiedObject):
     def setNetworkDataSets(self, value):
         for p in self._NetworkDataSets:
             filtered = [q for q in p.Documents if q != self]
-            self._NetworkDataSets._Documents = filtered
+            p._Documents = filtered
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
@@ -219,7 +219,7 @@ class Document(IdentifiedObject):
     def setScheduleParameterInfos(self, value):
         for p in self._ScheduleParameterInfos:
             filtered = [q for q in p.Documents if q != self]
-            self._ScheduleParameterInfos._Documents = filtered
+            p._Documents = filtered
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
@@ -267,7 +267,7 @@ class Document(IdentifiedObject):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.Documents if q != self]
-            self._Measurements._Documents = filtered
+            p._Documents = filtered
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
@@ -295,7 +295,7 @@ class Document(IdentifiedObject):
     def setActivityRecords(self, value):
         for p in self._ActivityRecords:
             filtered = [q for q in p.Documents if q != self]
-            self._ActivityRecords._Documents = filtered
+            p._Documents = filtered
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
@@ -322,7 +322,7 @@ class Document(IdentifiedObject):
     def setChangeSets(self, value):
         for p in self._ChangeSets:
             filtered = [q for q in p.Documents if q != self]
-            self._ChangeSets._Documents = filtered
+            p._Documents = filtered
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
diff --git a/CIM15/IEC61968/Common/Location.py b/CIM15/IEC61968/Common/Location.py
index 7e2445f..b27abf3 100644
--- a/CIM15/IEC61968/Common/Location.py
+++ b/CIM15/IEC61968/Common/Location.py
@@ -187,7 +187,7 @@ class Location(IdentifiedObject):
     def setRedLines(self, value):
         for p in self._RedLines:
             filtered = [q for q in p.Locations if q != self]
-            self._RedLines._Locations = filtered
+            p._Locations = filtered
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
@@ -230,7 +230,7 @@ class Location(IdentifiedObject):
     def setLandProperties(self, value):
         for p in self._LandProperties:
             filtered = [q for q in p.Locations if q != self]
-            self._LandProperties._Locations = filtered
+            p._Locations = filtered
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
@@ -278,7 +278,7 @@ class Location(IdentifiedObject):
     def setHazards(self, value):
         for p in self._Hazards:
             filtered = [q for q in p.Locations if q != self]
-            self._Hazards._Locations = filtered
+            p._Locations = filtered
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
@@ -308,7 +308,7 @@ class Location(IdentifiedObject):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.Locations if q != self]
-            self._Crews._Locations = filtered
+            p._Locations = filtered
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
@@ -379,7 +379,7 @@ class Location(IdentifiedObject):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.Locations if q != self]
-            self._Measurements._Locations = filtered
+            p._Locations = filtered
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
@@ -406,7 +406,7 @@ class Location(IdentifiedObject):
     def setRoutes(self, value):
         for p in self._Routes:
             filtered = [q for q in p.Locations if q != self]
-            self._Routes._Locations = filtered
+            p._Locations = filtered
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
@@ -450,7 +450,7 @@ class Location(IdentifiedObject):
     def setErpOrganisations(self, value):
         for p in self._ErpOrganisations:
             filtered = [q for q in p.Locations if q != self]
-            self._ErpOrganisations._Locations = filtered
+            p._Locations = filtered
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
diff --git a/CIM15/IEC61968/Common/Organisation.py b/CIM15/IEC61968/Common/Organisation.py
index 6ffd5a6..42805fa 100644
--- a/CIM15/IEC61968/Common/Organisation.py
+++ b/CIM15/IEC61968/Common/Organisation.py
@@ -78,7 +78,7 @@ class Organisation(IdentifiedObject):
     def setBusinessRoles(self, value):
         for p in self._BusinessRoles:
             filtered = [q for q in p.Organisations if q != self]
-            self._BusinessRoles._Organisations = filtered
+            p._Organisations = filtered
         for r in value:
             if self not in r._Organisations:
                 r._Organisations.append(self)
diff --git a/CIM15/IEC61968/Common/UserAttribute.py b/CIM15/IEC61968/Common/UserAttribute.py
index 6309cdf..5682770 100644
--- a/CIM15/IEC61968/Common/UserAttribute.py
+++ b/CIM15/IEC61968/Common/UserAttribute.py
@@ -92,7 +92,7 @@ class UserAttribute(Element):
     def setErpLedgerEntries(self, value):
         for p in self._ErpLedgerEntries:
             filtered = [q for q in p.UserAttributes if q != self]
-            self._ErpLedgerEntries._UserAttributes = filtered
+            p._UserAttributes = filtered
         for r in value:
             if self not in r._UserAttributes:
                 r._UserAttributes.append(self)
@@ -119,7 +119,7 @@ class UserAttribute(Element):
     def setProcedureDataSets(self, value):
         for p in self._ProcedureDataSets:
             filtered = [q for q in p.Properties if q != self]
-            self._ProcedureDataSets._Properties = filtered
+            p._Properties = filtered
         for r in value:
             if self not in r._Properties:
                 r._Properties.append(self)
@@ -195,7 +195,7 @@ class UserAttribute(Element):
     def setPropertyAssets(self, value):
         for p in self._PropertyAssets:
             filtered = [q for q in p.Properties if q != self]
-            self._PropertyAssets._Properties = filtered
+            p._Properties = filtered
         for r in value:
             if self not in r._Properties:
                 r._Properties.append(self)
@@ -238,7 +238,7 @@ class UserAttribute(Element):
     def setErpInvoiceLineItems(self, value):
         for p in self._ErpInvoiceLineItems:
             filtered = [q for q in p.UserAttributes if q != self]
-            self._ErpInvoiceLineItems._UserAttributes = filtered
+            p._UserAttributes = filtered
         for r in value:
             if self not in r._UserAttributes:
                 r._UserAttributes.append(self)
@@ -265,7 +265,7 @@ class UserAttribute(Element):
     def setRatingAssets(self, value):
         for p in self._RatingAssets:
             filtered = [q for q in p.Ratings if q != self]
-            self._RatingAssets._Ratings = filtered
+            p._Ratings = filtered
         for r in value:
             if self not in r._Ratings:
                 r._Ratings.append(self)
diff --git a/CIM15/IEC61968/Customers/Customer.py b/CIM15/IEC61968/Customers/Customer.py
index 0447966..44fc93f 100644
--- a/CIM15/IEC61968/Customers/Customer.py
+++ b/CIM15/IEC61968/Customers/Customer.py
@@ -154,7 +154,7 @@ class Customer(Organisation):
     def setWorks(self, value):
         for p in self._Works:
             filtered = [q for q in p.Customers if q != self]
-            self._Works._Customers = filtered
+            p._Customers = filtered
         for r in value:
             if self not in r._Customers:
                 r._Customers.append(self)
@@ -200,7 +200,7 @@ class Customer(Organisation):
     def setOutageNotifications(self, value):
         for p in self._OutageNotifications:
             filtered = [q for q in p.CustomerDatas if q != self]
-            self._OutageNotifications._CustomerDatas = filtered
+            p._CustomerDatas = filtered
         for r in value:
             if self not in r._CustomerDatas:
                 r._CustomerDatas.append(self)
diff --git a/CIM15/IEC61968/Customers/CustomerAgreement.py b/CIM15/IEC61968/Customers/CustomerAgreement.py
index 861f320..6b8e3e0 100644
--- a/CIM15/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM15/IEC61968/Customers/CustomerAgreement.py
@@ -105,7 +105,7 @@ class CustomerAgreement(Agreement):
     def setPricingStructures(self, value):
         for p in self._PricingStructures:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._PricingStructures._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
@@ -207,7 +207,7 @@ class CustomerAgreement(Agreement):
     def setEquipments(self, value):
         for p in self._Equipments:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._Equipments._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
@@ -252,7 +252,7 @@ class CustomerAgreement(Agreement):
     def setServiceLocations(self, value):
         for p in self._ServiceLocations:
             filtered = [q for q in p.CustomerAgreements if q != self]
-            self._ServiceLocations._CustomerAgreements = filtered
+            p._CustomerAgreements = filtered
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
diff --git a/CIM15/IEC61968/Customers/PricingStructure.py b/CIM15/IEC61968/Customers/PricingStructure.py
index b758904..d80102f 100644
--- a/CIM15/IEC61968/Customers/PricingStructure.py
+++ b/CIM15/IEC61968/Customers/PricingStructure.py
@@ -106,7 +106,7 @@ class PricingStructure(Document):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.PricingStructures if q != self]
-            self._CustomerAgreements._PricingStructures = filtered
+            p._PricingStructures = filtered
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
@@ -134,7 +134,7 @@ class PricingStructure(Document):
     def setServiceDeliveryPoints(self, value):
         for p in self._ServiceDeliveryPoints:
             filtered = [q for q in p.PricingStructures if q != self]
-            self._ServiceDeliveryPoints._PricingStructures = filtered
+            p._PricingStructures = filtered
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
@@ -162,7 +162,7 @@ class PricingStructure(Document):
     def setTariffs(self, value):
         for p in self._Tariffs:
             filtered = [q for q in p.PricingStructures if q != self]
-            self._Tariffs._PricingStructures = filtered
+            p._PricingStructures = filtered
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
diff --git a/CIM15/IEC61968/Customers/ServiceLocation.py b/CIM15/IEC61968/Customers/ServiceLocation.py
index 890418e..d1de1ab 100644
--- a/CIM15/IEC61968/Customers/ServiceLocation.py
+++ b/CIM15/IEC61968/Customers/ServiceLocation.py
@@ -135,7 +135,7 @@ class ServiceLocation(Location):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.ServiceLocations if q != self]
-            self._CustomerAgreements._ServiceLocations = filtered
+            p._ServiceLocations = filtered
         for r in value:
             if self not in r._ServiceLocations:
                 r._ServiceLocations.append(self)
diff --git a/CIM15/IEC61968/Customers/Tariff.py b/CIM15/IEC61968/Customers/Tariff.py
index 6a59879..20783f0 100644
--- a/CIM15/IEC61968/Customers/Tariff.py
+++ b/CIM15/IEC61968/Customers/Tariff.py
@@ -61,7 +61,7 @@ class Tariff(Document):
     def setPricingStructures(self, value):
         for p in self._PricingStructures:
             filtered = [q for q in p.Tariffs if q != self]
-            self._PricingStructures._Tariffs = filtered
+            p._Tariffs = filtered
         for r in value:
             if self not in r._Tariffs:
                 r._Tariffs.append(self)
@@ -89,7 +89,7 @@ class Tariff(Document):
     def setTariffProfiles(self, value):
         for p in self._TariffProfiles:
             filtered = [q for q in p.Tariffs if q != self]
-            self._TariffProfiles._Tariffs = filtered
+            p._Tariffs = filtered
         for r in value:
             if self not in r._Tariffs:
                 r._Tariffs.append(self)
diff --git a/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py b/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
index 047d890..ccd5de7 100644
--- a/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
+++ b/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
@@ -82,7 +82,7 @@ class ConnectDisconnectFunction(EndDeviceFunction):
     def setSwitches(self, value):
         for p in self._Switches:
             filtered = [q for q in p.ConnectDisconnectFunctions if q != self]
-            self._Switches._ConnectDisconnectFunctions = filtered
+            p._ConnectDisconnectFunctions = filtered
         for r in value:
             if self not in r._ConnectDisconnectFunctions:
                 r._ConnectDisconnectFunctions.append(self)
diff --git a/CIM15/IEC61968/Metering/EndDevice.py b/CIM15/IEC61968/Metering/EndDevice.py
index 253a8c2..2afb706 100644
--- a/CIM15/IEC61968/Metering/EndDevice.py
+++ b/CIM15/IEC61968/Metering/EndDevice.py
@@ -191,7 +191,7 @@ class EndDevice(AssetContainer):
     def setEndDeviceGroups(self, value):
         for p in self._EndDeviceGroups:
             filtered = [q for q in p.EndDevices if q != self]
-            self._EndDeviceGroups._EndDevices = filtered
+            p._EndDevices = filtered
         for r in value:
             if self not in r._EndDevices:
                 r._EndDevices.append(self)
diff --git a/CIM15/IEC61968/Metering/EndDeviceGroup.py b/CIM15/IEC61968/Metering/EndDeviceGroup.py
index 897c94e..04a3301 100644
--- a/CIM15/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM15/IEC61968/Metering/EndDeviceGroup.py
@@ -82,7 +82,7 @@ class EndDeviceGroup(IdentifiedObject):
     def setEndDevices(self, value):
         for p in self._EndDevices:
             filtered = [q for q in p.EndDeviceGroups if q != self]
-            self._EndDevices._EndDeviceGroups = filtered
+            p._EndDeviceGroups = filtered
         for r in value:
             if self not in r._EndDeviceGroups:
                 r._EndDeviceGroups.append(self)
diff --git a/CIM15/IEC61968/Metering/IntervalBlock.py b/CIM15/IEC61968/Metering/IntervalBlock.py
index 1acaca6..6953b30 100644
--- a/CIM15/IEC61968/Metering/IntervalBlock.py
+++ b/CIM15/IEC61968/Metering/IntervalBlock.py
@@ -78,7 +78,7 @@ class IntervalBlock(Element):
     def setIntervalReadings(self, value):
         for p in self._IntervalReadings:
             filtered = [q for q in p.IntervalBlocks if q != self]
-            self._IntervalReadings._IntervalBlocks = filtered
+            p._IntervalBlocks = filtered
         for r in value:
             if self not in r._IntervalBlocks:
                 r._IntervalBlocks.append(self)
diff --git a/CIM15/IEC61968/Metering/IntervalReading.py b/CIM15/IEC61968/Metering/IntervalReading.py
index c466600..43b30e5 100644
--- a/CIM15/IEC61968/Metering/IntervalReading.py
+++ b/CIM15/IEC61968/Metering/IntervalReading.py
@@ -57,7 +57,7 @@ class IntervalReading(MeasurementValue):
     def setIntervalBlocks(self, value):
         for p in self._IntervalBlocks:
             filtered = [q for q in p.IntervalReadings if q != self]
-            self._IntervalBlocks._IntervalReadings = filtered
+            p._IntervalReadings = filtered
         for r in value:
             if self not in r._IntervalReadings:
                 r._IntervalReadings.append(self)
diff --git a/CIM15/IEC61968/Metering/MeterReading.py b/CIM15/IEC61968/Metering/MeterReading.py
index 0923b86..d5f7b74 100644
--- a/CIM15/IEC61968/Metering/MeterReading.py
+++ b/CIM15/IEC61968/Metering/MeterReading.py
@@ -113,7 +113,7 @@ class MeterReading(IdentifiedObject):
     def setReadings(self, value):
         for p in self._Readings:
             filtered = [q for q in p.MeterReadings if q != self]
-            self._Readings._MeterReadings = filtered
+            p._MeterReadings = filtered
         for r in value:
             if self not in r._MeterReadings:
                 r._MeterReadings.append(self)
diff --git a/CIM15/IEC61968/Metering/Reading.py b/CIM15/IEC61968/Metering/Reading.py
index 33d7b2b..8613187 100644
--- a/CIM15/IEC61968/Metering/Reading.py
+++ b/CIM15/IEC61968/Metering/Reading.py
@@ -78,7 +78,7 @@ class Reading(MeasurementValue):
     def setMeterReadings(self, value):
         for p in self._MeterReadings:
             filtered = [q for q in p.Readings if q != self]
-            self._MeterReadings._Readings = filtered
+            p._Readings = filtered
         for r in value:
             if self not in r._Readings:
                 r._Readings.append(self)
diff --git a/CIM15/IEC61968/Metering/SDPLocation.py b/CIM15/IEC61968/Metering/SDPLocation.py
index aa12a7e..7e7e223 100644
--- a/CIM15/IEC61968/Metering/SDPLocation.py
+++ b/CIM15/IEC61968/Metering/SDPLocation.py
@@ -65,7 +65,7 @@ class SDPLocation(Location):
     def setServiceDeliveryPoints(self, value):
         for p in self._ServiceDeliveryPoints:
             filtered = [q for q in p.SDPLocations if q != self]
-            self._ServiceDeliveryPoints._SDPLocations = filtered
+            p._SDPLocations = filtered
         for r in value:
             if self not in r._SDPLocations:
                 r._SDPLocations.append(self)
diff --git a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
index d51494d..30282e6 100644
--- a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -125,7 +125,7 @@ class ServiceDeliveryPoint(IdentifiedObject):
     def setSDPLocations(self, value):
         for p in self._SDPLocations:
             filtered = [q for q in p.ServiceDeliveryPoints if q != self]
-            self._SDPLocations._ServiceDeliveryPoints = filtered
+            p._ServiceDeliveryPoints = filtered
         for r in value:
             if self not in r._ServiceDeliveryPoints:
                 r._ServiceDeliveryPoints.append(self)
@@ -229,7 +229,7 @@ class ServiceDeliveryPoint(IdentifiedObject):
     def setPricingStructures(self, value):
         for p in self._PricingStructures:
             filtered = [q for q in p.ServiceDeliveryPoints if q != self]
-            self._PricingStructures._ServiceDeliveryPoints = filtered
+            p._ServiceDeliveryPoints = filtered
         for r in value:
             if self not in r._ServiceDeliveryPoints:
                 r._ServiceDeliveryPoints.append(self)
diff --git a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
index 3cb25e5..2ab6232 100644
--- a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -98,7 +98,7 @@ class AuxiliaryAccount(Document):
     def setCharges(self, value):
         for p in self._Charges:
             filtered = [q for q in p.AuxiliaryAccounts if q != self]
-            self._Charges._AuxiliaryAccounts = filtered
+            p._AuxiliaryAccounts = filtered
         for r in value:
             if self not in r._AuxiliaryAccounts:
                 r._AuxiliaryAccounts.append(self)
diff --git a/CIM15/IEC61968/PaymentMetering/Charge.py b/CIM15/IEC61968/PaymentMetering/Charge.py
index 0e06a1b..befc98f 100644
--- a/CIM15/IEC61968/PaymentMetering/Charge.py
+++ b/CIM15/IEC61968/PaymentMetering/Charge.py
@@ -76,7 +76,7 @@ class Charge(IdentifiedObject):
     def setConsumptionTariffIntervals(self, value):
         for p in self._ConsumptionTariffIntervals:
             filtered = [q for q in p.Charges if q != self]
-            self._ConsumptionTariffIntervals._Charges = filtered
+            p._Charges = filtered
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
@@ -104,7 +104,7 @@ class Charge(IdentifiedObject):
     def setTimeTariffIntervals(self, value):
         for p in self._TimeTariffIntervals:
             filtered = [q for q in p.Charges if q != self]
-            self._TimeTariffIntervals._Charges = filtered
+            p._Charges = filtered
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
@@ -132,7 +132,7 @@ class Charge(IdentifiedObject):
     def setAuxiliaryAccounts(self, value):
         for p in self._AuxiliaryAccounts:
             filtered = [q for q in p.Charges if q != self]
-            self._AuxiliaryAccounts._Charges = filtered
+            p._Charges = filtered
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
diff --git a/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py b/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
index d4cea16..adaf845 100644
--- a/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
+++ b/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
@@ -65,7 +65,7 @@ class ConsumptionTariffInterval(Element):
     def setCharges(self, value):
         for p in self._Charges:
             filtered = [q for q in p.ConsumptionTariffIntervals if q != self]
-            self._Charges._ConsumptionTariffIntervals = filtered
+            p._ConsumptionTariffIntervals = filtered
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
@@ -93,7 +93,7 @@ class ConsumptionTariffInterval(Element):
     def setTariffProfiles(self, value):
         for p in self._TariffProfiles:
             filtered = [q for q in p.ConsumptionTariffIntervals if q != self]
-            self._TariffProfiles._ConsumptionTariffIntervals = filtered
+            p._ConsumptionTariffIntervals = filtered
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
@@ -121,7 +121,7 @@ class ConsumptionTariffInterval(Element):
     def setTouTariffIntervals(self, value):
         for p in self._TouTariffIntervals:
             filtered = [q for q in p.ConsumptionTariffIntervals if q != self]
-            self._TouTariffIntervals._ConsumptionTariffIntervals = filtered
+            p._ConsumptionTariffIntervals = filtered
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
diff --git a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
index 676cca5..b580e74 100644
--- a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
@@ -82,7 +82,7 @@ class MerchantAccount(Document):
     def setTransactors(self, value):
         for p in self._Transactors:
             filtered = [q for q in p.MerchantAccounts if q != self]
-            self._Transactors._MerchantAccounts = filtered
+            p._MerchantAccounts = filtered
         for r in value:
             if self not in r._MerchantAccounts:
                 r._MerchantAccounts.append(self)
diff --git a/CIM15/IEC61968/PaymentMetering/TariffProfile.py b/CIM15/IEC61968/PaymentMetering/TariffProfile.py
index 41744d8..98c3528 100644
--- a/CIM15/IEC61968/PaymentMetering/TariffProfile.py
+++ b/CIM15/IEC61968/PaymentMetering/TariffProfile.py
@@ -61,7 +61,7 @@ class TariffProfile(Document):
     def setTariffs(self, value):
         for p in self._Tariffs:
             filtered = [q for q in p.TariffProfiles if q != self]
-            self._Tariffs._TariffProfiles = filtered
+            p._TariffProfiles = filtered
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
@@ -89,7 +89,7 @@ class TariffProfile(Document):
     def setConsumptionTariffIntervals(self, value):
         for p in self._ConsumptionTariffIntervals:
             filtered = [q for q in p.TariffProfiles if q != self]
-            self._ConsumptionTariffIntervals._TariffProfiles = filtered
+            p._TariffProfiles = filtered
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
@@ -117,7 +117,7 @@ class TariffProfile(Document):
     def setTimeTariffIntervals(self, value):
         for p in self._TimeTariffIntervals:
             filtered = [q for q in p.TariffProfiles if q != self]
-            self._TimeTariffIntervals._TariffProfiles = filtered
+            p._TariffProfiles = filtered
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
diff --git a/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py b/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
index 1b17ee3..a541452 100644
--- a/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
+++ b/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
@@ -65,7 +65,7 @@ class TimeTariffInterval(Element):
     def setConsumptionTariffIntervals(self, value):
         for p in self._ConsumptionTariffIntervals:
             filtered = [q for q in p.TouTariffIntervals if q != self]
-            self._ConsumptionTariffIntervals._TouTariffIntervals = filtered
+            p._TouTariffIntervals = filtered
         for r in value:
             if self not in r._TouTariffIntervals:
                 r._TouTariffIntervals.append(self)
@@ -93,7 +93,7 @@ class TimeTariffInterval(Element):
     def setTariffProfiles(self, value):
         for p in self._TariffProfiles:
             filtered = [q for q in p.TimeTariffIntervals if q != self]
-            self._TariffProfiles._TimeTariffIntervals = filtered
+            p._TimeTariffIntervals = filtered
         for r in value:
             if self not in r._TimeTariffIntervals:
                 r._TimeTariffIntervals.append(self)
@@ -121,7 +121,7 @@ class TimeTariffInterval(Element):
     def setCharges(self, value):
         for p in self._Charges:
             filtered = [q for q in p.TimeTariffIntervals if q != self]
-            self._Charges._TimeTariffIntervals = filtered
+            p._TimeTariffIntervals = filtered
         for r in value:
             if self not in r._TimeTariffIntervals:
                 r._TimeTariffIntervals.append(self)
diff --git a/CIM15/IEC61968/PaymentMetering/Transactor.py b/CIM15/IEC61968/PaymentMetering/Transactor.py
index eeb18cd..afd152c 100644
--- a/CIM15/IEC61968/PaymentMetering/Transactor.py
+++ b/CIM15/IEC61968/PaymentMetering/Transactor.py
@@ -49,7 +49,7 @@ class Transactor(IdentifiedObject):
     def setMerchantAccounts(self, value):
         for p in self._MerchantAccounts:
             filtered = [q for q in p.Transactors if q != self]
-            self._MerchantAccounts._Transactors = filtered
+            p._Transactors = filtered
         for r in value:
             if self not in r._Transactors:
                 r._Transactors.append(self)
diff --git a/CIM15/IEC61968/Work/Work.py b/CIM15/IEC61968/Work/Work.py
index 9c0ea17..c15cb41 100644
--- a/CIM15/IEC61968/Work/Work.py
+++ b/CIM15/IEC61968/Work/Work.py
@@ -116,7 +116,7 @@ class Work(Document):
     def setWorkCostDetails(self, value):
         for p in self._WorkCostDetails:
             filtered = [q for q in p.Works if q != self]
-            self._WorkCostDetails._Works = filtered
+            p._Works = filtered
         for r in value:
             if self not in r._Works:
                 r._Works.append(self)
@@ -264,7 +264,7 @@ class Work(Document):
     def setCustomers(self, value):
         for p in self._Customers:
             filtered = [q for q in p.Works if q != self]
-            self._Customers._Works = filtered
+            p._Works = filtered
         for r in value:
             if self not in r._Works:
                 r._Works.append(self)
diff --git a/CIM15/IEC61970/Core/ConductingEquipment.py b/CIM15/IEC61970/Core/ConductingEquipment.py
index da48d8d..be0dc06 100644
--- a/CIM15/IEC61970/Core/ConductingEquipment.py
+++ b/CIM15/IEC61970/Core/ConductingEquipment.py
@@ -107,7 +107,7 @@ class ConductingEquipment(Equipment):
     def setProtectionEquipments(self, value):
         for p in self._ProtectionEquipments:
             filtered = [q for q in p.ConductingEquipments if q != self]
-            self._ProtectionEquipments._ConductingEquipments = filtered
+            p._ConductingEquipments = filtered
         for r in value:
             if self not in r._ConductingEquipments:
                 r._ConductingEquipments.append(self)
diff --git a/CIM15/IEC61970/Core/Equipment.py b/CIM15/IEC61970/Core/Equipment.py
index ed39e13..bd3372a 100644
--- a/CIM15/IEC61970/Core/Equipment.py
+++ b/CIM15/IEC61970/Core/Equipment.py
@@ -90,7 +90,7 @@ class Equipment(PowerSystemResource):
     def setCustomerAgreements(self, value):
         for p in self._CustomerAgreements:
             filtered = [q for q in p.Equipments if q != self]
-            self._CustomerAgreements._Equipments = filtered
+            p._Equipments = filtered
         for r in value:
             if self not in r._Equipments:
                 r._Equipments.append(self)
diff --git a/CIM15/IEC61970/Core/PowerSystemResource.py b/CIM15/IEC61970/Core/PowerSystemResource.py
index 3a877f3..62a5256 100644
--- a/CIM15/IEC61970/Core/PowerSystemResource.py
+++ b/CIM15/IEC61970/Core/PowerSystemResource.py
@@ -124,7 +124,7 @@ class PowerSystemResource(IdentifiedObject):
     def setScheduleSteps(self, value):
         for p in self._ScheduleSteps:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._ScheduleSteps._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
@@ -212,7 +212,7 @@ class PowerSystemResource(IdentifiedObject):
     def setPsrLists(self, value):
         for p in self._PsrLists:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._PsrLists._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
@@ -261,7 +261,7 @@ class PowerSystemResource(IdentifiedObject):
     def setReportingGroup(self, value):
         for p in self._ReportingGroup:
             filtered = [q for q in p.PowerSystemResource if q != self]
-            self._ReportingGroup._PowerSystemResource = filtered
+            p._PowerSystemResource = filtered
         for r in value:
             if self not in r._PowerSystemResource:
                 r._PowerSystemResource.append(self)
@@ -306,7 +306,7 @@ class PowerSystemResource(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._Assets._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
@@ -391,7 +391,7 @@ class PowerSystemResource(IdentifiedObject):
     def setNetworkDataSets(self, value):
         for p in self._NetworkDataSets:
             filtered = [q for q in p.PowerSystemResources if q != self]
-            self._NetworkDataSets._PowerSystemResources = filtered
+            p._PowerSystemResources = filtered
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
diff --git a/CIM15/IEC61970/Core/PsrList.py b/CIM15/IEC61970/Core/PsrList.py
index 69b1d63..d73eda3 100644
--- a/CIM15/IEC61970/Core/PsrList.py
+++ b/CIM15/IEC61970/Core/PsrList.py
@@ -52,7 +52,7 @@ class PsrList(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.PsrLists if q != self]
-            self._PowerSystemResources._PsrLists = filtered
+            p._PsrLists = filtered
         for r in value:
             if self not in r._PsrLists:
                 r._PsrLists.append(self)
diff --git a/CIM15/IEC61970/Core/ReportingGroup.py b/CIM15/IEC61970/Core/ReportingGroup.py
index 1d986da..8f54256 100644
--- a/CIM15/IEC61970/Core/ReportingGroup.py
+++ b/CIM15/IEC61970/Core/ReportingGroup.py
@@ -120,7 +120,7 @@ class ReportingGroup(IdentifiedObject):
     def setPowerSystemResource(self, value):
         for p in self._PowerSystemResource:
             filtered = [q for q in p.ReportingGroup if q != self]
-            self._PowerSystemResource._ReportingGroup = filtered
+            p._ReportingGroup = filtered
         for r in value:
             if self not in r._ReportingGroup:
                 r._ReportingGroup.append(self)
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py b/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
index 6f2468f..0d8b1d7 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
@@ -53,7 +53,7 @@ class PrimeMover(PowerSystemResource):
     def setSynchronousMachines(self, value):
         for p in self._SynchronousMachines:
             filtered = [q for q in p.PrimeMovers if q != self]
-            self._SynchronousMachines._PrimeMovers = filtered
+            p._PrimeMovers = filtered
         for r in value:
             if self not in r._PrimeMovers:
                 r._PrimeMovers.append(self)
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py b/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
index 9882b33..e451a36 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
@@ -53,7 +53,7 @@ class SteamSupply(PowerSystemResource):
     def setSteamTurbines(self, value):
         for p in self._SteamTurbines:
             filtered = [q for q in p.SteamSupplys if q != self]
-            self._SteamTurbines._SteamSupplys = filtered
+            p._SteamSupplys = filtered
         for r in value:
             if self not in r._SteamSupplys:
                 r._SteamSupplys.append(self)
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py b/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
index 4ec5f1c..dc18a95 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
@@ -97,7 +97,7 @@ class SteamTurbine(PrimeMover):
     def setSteamSupplys(self, value):
         for p in self._SteamSupplys:
             filtered = [q for q in p.SteamTurbines if q != self]
-            self._SteamSupplys._SteamTurbines = filtered
+            p._SteamTurbines = filtered
         for r in value:
             if self not in r._SteamTurbines:
                 r._SteamTurbines.append(self)
diff --git a/CIM15/IEC61970/Graphics/DiagramObject.py b/CIM15/IEC61970/Graphics/DiagramObject.py
index 41f2a07..05c3ad1 100644
--- a/CIM15/IEC61970/Graphics/DiagramObject.py
+++ b/CIM15/IEC61970/Graphics/DiagramObject.py
@@ -85,7 +85,7 @@ class DiagramObject(IdentifiedObject):
     def setVisibilityLayers(self, value):
         for p in self._VisibilityLayers:
             filtered = [q for q in p.DiagramObjects if q != self]
-            self._VisibilityLayers._DiagramObjects = filtered
+            p._DiagramObjects = filtered
         for r in value:
             if self not in r._DiagramObjects:
                 r._DiagramObjects.append(self)
diff --git a/CIM15/IEC61970/Graphics/VisibilityLayer.py b/CIM15/IEC61970/Graphics/VisibilityLayer.py
index 96c51d6..0260c39 100644
--- a/CIM15/IEC61970/Graphics/VisibilityLayer.py
+++ b/CIM15/IEC61970/Graphics/VisibilityLayer.py
@@ -53,7 +53,7 @@ class VisibilityLayer(IdentifiedObject):
     def setDiagramObjects(self, value):
         for p in self._DiagramObjects:
             filtered = [q for q in p.VisibilityLayers if q != self]
-            self._DiagramObjects._VisibilityLayers = filtered
+            p._VisibilityLayers = filtered
         for r in value:
             if self not in r._VisibilityLayers:
                 r._VisibilityLayers.append(self)
diff --git a/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py b/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
index 02fa63f..fbb850a 100644
--- a/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
+++ b/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
@@ -68,7 +68,7 @@ class AssetPropertyCurve(Curve):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.AssetPropertyCurves if q != self]
-            self._Assets._AssetPropertyCurves = filtered
+            p._AssetPropertyCurves = filtered
         for r in value:
             if self not in r._AssetPropertyCurves:
                 r._AssetPropertyCurves.append(self)
diff --git a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
index 5d19f82..4c84493 100644
--- a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
@@ -116,7 +116,7 @@ class DimensionsInfo(IdentifiedObject):
     def setSpecifications(self, value):
         for p in self._Specifications:
             filtered = [q for q in p.DimensionsInfos if q != self]
-            self._Specifications._DimensionsInfos = filtered
+            p._DimensionsInfos = filtered
         for r in value:
             if self not in r._DimensionsInfos:
                 r._DimensionsInfos.append(self)
diff --git a/CIM15/IEC61970/Informative/InfAssets/Medium.py b/CIM15/IEC61970/Informative/InfAssets/Medium.py
index 276a5c6..4d557ba 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Medium.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Medium.py
@@ -76,7 +76,7 @@ class Medium(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.Mediums if q != self]
-            self._Assets._Mediums = filtered
+            p._Mediums = filtered
         for r in value:
             if self not in r._Mediums:
                 r._Mediums.append(self)
diff --git a/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py b/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
index 1f7d2c8..418ca8b 100644
--- a/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
+++ b/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
@@ -52,7 +52,7 @@ class MountingConnection(IdentifiedObject):
     def setStructureInfos(self, value):
         for p in self._StructureInfos:
             filtered = [q for q in p.MountingConnections if q != self]
-            self._StructureInfos._MountingConnections = filtered
+            p._MountingConnections = filtered
         for r in value:
             if self not in r._MountingConnections:
                 r._MountingConnections.append(self)
@@ -79,7 +79,7 @@ class MountingConnection(IdentifiedObject):
     def setMountingPoints(self, value):
         for p in self._MountingPoints:
             filtered = [q for q in p.Connections if q != self]
-            self._MountingPoints._Connections = filtered
+            p._Connections = filtered
         for r in value:
             if self not in r._Connections:
                 r._Connections.append(self)
diff --git a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
index 1de4ad7..ae5d203 100644
--- a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
+++ b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
@@ -64,7 +64,7 @@ class MountingPoint(IdentifiedObject):
     def setConnections(self, value):
         for p in self._Connections:
             filtered = [q for q in p.MountingPoints if q != self]
-            self._Connections._MountingPoints = filtered
+            p._MountingPoints = filtered
         for r in value:
             if self not in r._MountingPoints:
                 r._MountingPoints.append(self)
diff --git a/CIM15/IEC61970/Informative/InfAssets/PowerRating.py b/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
index 8dcec90..d98ee7f 100644
--- a/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
+++ b/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
@@ -60,7 +60,7 @@ class PowerRating(IdentifiedObject):
     def setTransformerAssets(self, value):
         for p in self._TransformerAssets:
             filtered = [q for q in p.PowerRatings if q != self]
-            self._TransformerAssets._PowerRatings = filtered
+            p._PowerRatings = filtered
         for r in value:
             if self not in r._PowerRatings:
                 r._PowerRatings.append(self)
diff --git a/CIM15/IEC61970/Informative/InfAssets/Procedure.py b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
index a029825..7615ab4 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Procedure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
@@ -117,7 +117,7 @@ class Procedure(Document):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.Procedures if q != self]
-            self._CompatibleUnits._Procedures = filtered
+            p._Procedures = filtered
         for r in value:
             if self not in r._Procedures:
                 r._Procedures.append(self)
@@ -144,7 +144,7 @@ class Procedure(Document):
     def setLimits(self, value):
         for p in self._Limits:
             filtered = [q for q in p.Procedures if q != self]
-            self._Limits._Procedures = filtered
+            p._Procedures = filtered
         for r in value:
             if self not in r._Procedures:
                 r._Procedures.append(self)
diff --git a/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py b/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
index b63440c..00036dd 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
@@ -65,7 +65,7 @@ class ProcedureDataSet(Document):
     def setProperties(self, value):
         for p in self._Properties:
             filtered = [q for q in p.ProcedureDataSets if q != self]
-            self._Properties._ProcedureDataSets = filtered
+            p._ProcedureDataSets = filtered
         for r in value:
             if self not in r._ProcedureDataSets:
                 r._ProcedureDataSets.append(self)
@@ -92,7 +92,7 @@ class ProcedureDataSet(Document):
     def setTransformerObservations(self, value):
         for p in self._TransformerObservations:
             filtered = [q for q in p.ProcedureDataSets if q != self]
-            self._TransformerObservations._ProcedureDataSets = filtered
+            p._ProcedureDataSets = filtered
         for r in value:
             if self not in r._ProcedureDataSets:
                 r._ProcedureDataSets.append(self)
@@ -135,7 +135,7 @@ class ProcedureDataSet(Document):
     def setMeasurementValues(self, value):
         for p in self._MeasurementValues:
             filtered = [q for q in p.ProcedureDataSets if q != self]
-            self._MeasurementValues._ProcedureDataSets = filtered
+            p._ProcedureDataSets = filtered
         for r in value:
             if self not in r._ProcedureDataSets:
                 r._ProcedureDataSets.append(self)
diff --git a/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py b/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
index 8a692c1..84e3553 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
@@ -76,7 +76,7 @@ class ReliabilityInfo(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.ReliabilityInfos if q != self]
-            self._Assets._ReliabilityInfos = filtered
+            p._ReliabilityInfos = filtered
         for r in value:
             if self not in r._ReliabilityInfos:
                 r._ReliabilityInfos.append(self)
diff --git a/CIM15/IEC61970/Informative/InfAssets/Specification.py b/CIM15/IEC61970/Informative/InfAssets/Specification.py
index 5750364..9b3152c 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Specification.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Specification.py
@@ -153,7 +153,7 @@ class Specification(Document):
     def setDimensionsInfos(self, value):
         for p in self._DimensionsInfos:
             filtered = [q for q in p.Specifications if q != self]
-            self._DimensionsInfos._Specifications = filtered
+            p._Specifications = filtered
         for r in value:
             if self not in r._Specifications:
                 r._Specifications.append(self)
@@ -201,7 +201,7 @@ class Specification(Document):
     def setQualificationRequirements(self, value):
         for p in self._QualificationRequirements:
             filtered = [q for q in p.Specifications if q != self]
-            self._QualificationRequirements._Specifications = filtered
+            p._Specifications = filtered
         for r in value:
             if self not in r._Specifications:
                 r._Specifications.append(self)
diff --git a/CIM15/IEC61970/Informative/InfAssets/Structure.py b/CIM15/IEC61970/Informative/InfAssets/Structure.py
index 4629990..21eae0d 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Structure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Structure.py
@@ -100,7 +100,7 @@ class Structure(AssetContainer):
     def setMountingConnections(self, value):
         for p in self._MountingConnections:
             filtered = [q for q in p.StructureInfos if q != self]
-            self._MountingConnections._StructureInfos = filtered
+            p._StructureInfos = filtered
         for r in value:
             if self not in r._StructureInfos:
                 r._StructureInfos.append(self)
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
index fa94b8a..61f21a4 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
@@ -64,7 +64,7 @@ class TransformerAsset(Asset):
     def setPowerRatings(self, value):
         for p in self._PowerRatings:
             filtered = [q for q in p.TransformerAssets if q != self]
-            self._PowerRatings._TransformerAssets = filtered
+            p._TransformerAssets = filtered
         for r in value:
             if self not in r._TransformerAssets:
                 r._TransformerAssets.append(self)
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
index 3ab7fe4..8e5c563 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
@@ -139,7 +139,7 @@ class TransformerObservation(IdentifiedObject):
     def setProcedureDataSets(self, value):
         for p in self._ProcedureDataSets:
             filtered = [q for q in p.TransformerObservations if q != self]
-            self._ProcedureDataSets._TransformerObservations = filtered
+            p._TransformerObservations = filtered
         for r in value:
             if self not in r._TransformerObservations:
                 r._TransformerObservations.append(self)
diff --git a/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py b/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
index 810ea4d..e24ba13 100644
--- a/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
+++ b/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
@@ -55,7 +55,7 @@ class BusinessRole(IdentifiedObject):
     def setOrganisations(self, value):
         for p in self._Organisations:
             filtered = [q for q in p.BusinessRoles if q != self]
-            self._Organisations._BusinessRoles = filtered
+            p._BusinessRoles = filtered
         for r in value:
             if self not in r._BusinessRoles:
                 r._BusinessRoles.append(self)
diff --git a/CIM15/IEC61970/Informative/InfCommon/Craft.py b/CIM15/IEC61970/Informative/InfCommon/Craft.py
index e10b277..41e4f6a 100644
--- a/CIM15/IEC61970/Informative/InfCommon/Craft.py
+++ b/CIM15/IEC61970/Informative/InfCommon/Craft.py
@@ -63,7 +63,7 @@ class Craft(IdentifiedObject):
     def setSkills(self, value):
         for p in self._Skills:
             filtered = [q for q in p.Crafts if q != self]
-            self._Skills._Crafts = filtered
+            p._Crafts = filtered
         for r in value:
             if self not in r._Crafts:
                 r._Crafts.append(self)
@@ -90,7 +90,7 @@ class Craft(IdentifiedObject):
     def setErpPersons(self, value):
         for p in self._ErpPersons:
             filtered = [q for q in p.Crafts if q != self]
-            self._ErpPersons._Crafts = filtered
+            p._Crafts = filtered
         for r in value:
             if self not in r._Crafts:
                 r._Crafts.append(self)
@@ -119,7 +119,7 @@ class Craft(IdentifiedObject):
     def setCapabilities(self, value):
         for p in self._Capabilities:
             filtered = [q for q in p.Crafts if q != self]
-            self._Capabilities._Crafts = filtered
+            p._Crafts = filtered
         for r in value:
             if self not in r._Crafts:
                 r._Crafts.append(self)
diff --git a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
index 57fde1b..42a64ec 100644
--- a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
+++ b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
@@ -84,7 +84,7 @@ class ScheduleParameterInfo(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.ScheduleParameterInfos if q != self]
-            self._Documents._ScheduleParameterInfos = filtered
+            p._ScheduleParameterInfos = filtered
         for r in value:
             if self not in r._ScheduleParameterInfos:
                 r._ScheduleParameterInfos.append(self)
diff --git a/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py b/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
index 0d6d02a..66181b5 100644
--- a/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
+++ b/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
@@ -140,7 +140,7 @@ class ScheduledEvent(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.ScheduledEvents if q != self]
-            self._Assets._ScheduledEvents = filtered
+            p._ScheduledEvents = filtered
         for r in value:
             if self not in r._ScheduledEvents:
                 r._ScheduledEvents.append(self)
diff --git a/CIM15/IEC61970/Informative/InfCommon/Skill.py b/CIM15/IEC61970/Informative/InfCommon/Skill.py
index 14b5f6e..ae6fd26 100644
--- a/CIM15/IEC61970/Informative/InfCommon/Skill.py
+++ b/CIM15/IEC61970/Informative/InfCommon/Skill.py
@@ -67,7 +67,7 @@ class Skill(Document):
     def setCrafts(self, value):
         for p in self._Crafts:
             filtered = [q for q in p.Skills if q != self]
-            self._Crafts._Skills = filtered
+            p._Skills = filtered
         for r in value:
             if self not in r._Skills:
                 r._Skills.append(self)
@@ -110,7 +110,7 @@ class Skill(Document):
     def setQualificationRequirements(self, value):
         for p in self._QualificationRequirements:
             filtered = [q for q in p.Skills if q != self]
-            self._QualificationRequirements._Skills = filtered
+            p._Skills = filtered
         for r in value:
             if self not in r._Skills:
                 r._Skills.append(self)
diff --git a/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py b/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
index 6468472..9cd0090 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
@@ -84,7 +84,7 @@ class CustomerBillingInfo(Document):
     def setErpInvoiceLineItems(self, value):
         for p in self._ErpInvoiceLineItems:
             filtered = [q for q in p.CustomerBillingInfos if q != self]
-            self._ErpInvoiceLineItems._CustomerBillingInfos = filtered
+            p._CustomerBillingInfos = filtered
         for r in value:
             if self not in r._CustomerBillingInfos:
                 r._CustomerBillingInfos.append(self)
diff --git a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
index d7c6426..fe6c063 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
@@ -120,7 +120,7 @@ class WorkBillingInfo(Document):
     def setErpLineItems(self, value):
         for p in self._ErpLineItems:
             filtered = [q for q in p.WorkBillingInfos if q != self]
-            self._ErpLineItems._WorkBillingInfos = filtered
+            p._WorkBillingInfos = filtered
         for r in value:
             if self not in r._WorkBillingInfos:
                 r._WorkBillingInfos.append(self)
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
index e4fee09..d710816 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
@@ -127,7 +127,7 @@ class ErpInvoiceLineItem(Document):
     def setErpPayments(self, value):
         for p in self._ErpPayments:
             filtered = [q for q in p.ErpInvoiceLineItems if q != self]
-            self._ErpPayments._ErpInvoiceLineItems = filtered
+            p._ErpInvoiceLineItems = filtered
         for r in value:
             if self not in r._ErpInvoiceLineItems:
                 r._ErpInvoiceLineItems.append(self)
@@ -170,7 +170,7 @@ class ErpInvoiceLineItem(Document):
     def setWorkBillingInfos(self, value):
         for p in self._WorkBillingInfos:
             filtered = [q for q in p.ErpLineItems if q != self]
-            self._WorkBillingInfos._ErpLineItems = filtered
+            p._ErpLineItems = filtered
         for r in value:
             if self not in r._ErpLineItems:
                 r._ErpLineItems.append(self)
@@ -212,7 +212,7 @@ class ErpInvoiceLineItem(Document):
     def setUserAttributes(self, value):
         for p in self._UserAttributes:
             filtered = [q for q in p.ErpInvoiceLineItems if q != self]
-            self._UserAttributes._ErpInvoiceLineItems = filtered
+            p._ErpInvoiceLineItems = filtered
         for r in value:
             if self not in r._ErpInvoiceLineItems:
                 r._ErpInvoiceLineItems.append(self)
@@ -309,7 +309,7 @@ class ErpInvoiceLineItem(Document):
     def setCustomerBillingInfos(self, value):
         for p in self._CustomerBillingInfos:
             filtered = [q for q in p.ErpInvoiceLineItems if q != self]
-            self._CustomerBillingInfos._ErpInvoiceLineItems = filtered
+            p._ErpInvoiceLineItems = filtered
         for r in value:
             if self not in r._ErpInvoiceLineItems:
                 r._ErpInvoiceLineItems.append(self)
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
index 27632b9..78636e9 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
@@ -93,7 +93,7 @@ class ErpJournalEntry(IdentifiedObject):
     def setErpPayableLineItems(self, value):
         for p in self._ErpPayableLineItems:
             filtered = [q for q in p.ErpJournalEntries if q != self]
-            self._ErpPayableLineItems._ErpJournalEntries = filtered
+            p._ErpJournalEntries = filtered
         for r in value:
             if self not in r._ErpJournalEntries:
                 r._ErpJournalEntries.append(self)
@@ -136,7 +136,7 @@ class ErpJournalEntry(IdentifiedObject):
     def setErpRecLineItems(self, value):
         for p in self._ErpRecLineItems:
             filtered = [q for q in p.ErpJournalEntries if q != self]
-            self._ErpRecLineItems._ErpJournalEntries = filtered
+            p._ErpJournalEntries = filtered
         for r in value:
             if self not in r._ErpJournalEntries:
                 r._ErpJournalEntries.append(self)
@@ -178,7 +178,7 @@ class ErpJournalEntry(IdentifiedObject):
     def setCostTypes(self, value):
         for p in self._CostTypes:
             filtered = [q for q in p.ErpJournalEntries if q != self]
-            self._CostTypes._ErpJournalEntries = filtered
+            p._ErpJournalEntries = filtered
         for r in value:
             if self not in r._ErpJournalEntries:
                 r._ErpJournalEntries.append(self)
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
index d463c50..5e59757 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
@@ -116,7 +116,7 @@ class ErpLedgerEntry(IdentifiedObject):
     def setUserAttributes(self, value):
         for p in self._UserAttributes:
             filtered = [q for q in p.ErpLedgerEntries if q != self]
-            self._UserAttributes._ErpLedgerEntries = filtered
+            p._ErpLedgerEntries = filtered
         for r in value:
             if self not in r._ErpLedgerEntries:
                 r._ErpLedgerEntries.append(self)
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
index 19b0fbb..b4bd65a 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
@@ -164,7 +164,7 @@ class ErpOrganisation(Organisation):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.Organisations if q != self]
-            self._Crews._Organisations = filtered
+            p._Organisations = filtered
         for r in value:
             if self not in r._Organisations:
                 r._Organisations.append(self)
@@ -231,7 +231,7 @@ class ErpOrganisation(Organisation):
     def setActivityRecords(self, value):
         for p in self._ActivityRecords:
             filtered = [q for q in p.Organisations if q != self]
-            self._ActivityRecords._Organisations = filtered
+            p._Organisations = filtered
         for r in value:
             if self not in r._Organisations:
                 r._Organisations.append(self)
@@ -278,7 +278,7 @@ class ErpOrganisation(Organisation):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.ErpOrganisations if q != self]
-            self._Locations._ErpOrganisations = filtered
+            p._ErpOrganisations = filtered
         for r in value:
             if self not in r._ErpOrganisations:
                 r._ErpOrganisations.append(self)
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
index c64d74d..caf0889 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
@@ -52,7 +52,7 @@ class ErpPayable(Document):
     def setContractorItems(self, value):
         for p in self._ContractorItems:
             filtered = [q for q in p.ErpPayables if q != self]
-            self._ContractorItems._ErpPayables = filtered
+            p._ErpPayables = filtered
         for r in value:
             if self not in r._ErpPayables:
                 r._ErpPayables.append(self)
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
index 2d04c0e..b9f5d27 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
@@ -63,7 +63,7 @@ class ErpPayableLineItem(IdentifiedObject):
     def setErpPayments(self, value):
         for p in self._ErpPayments:
             filtered = [q for q in p.ErpPayableLineItems if q != self]
-            self._ErpPayments._ErpPayableLineItems = filtered
+            p._ErpPayableLineItems = filtered
         for r in value:
             if self not in r._ErpPayableLineItems:
                 r._ErpPayableLineItems.append(self)
@@ -90,7 +90,7 @@ class ErpPayableLineItem(IdentifiedObject):
     def setErpJournalEntries(self, value):
         for p in self._ErpJournalEntries:
             filtered = [q for q in p.ErpPayableLineItems if q != self]
-            self._ErpJournalEntries._ErpPayableLineItems = filtered
+            p._ErpPayableLineItems = filtered
         for r in value:
             if self not in r._ErpPayableLineItems:
                 r._ErpPayableLineItems.append(self)
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
index 2d2aae8..a698689 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
@@ -60,7 +60,7 @@ class ErpPayment(Document):
     def setErpRecLineItems(self, value):
         for p in self._ErpRecLineItems:
             filtered = [q for q in p.ErpPayments if q != self]
-            self._ErpRecLineItems._ErpPayments = filtered
+            p._ErpPayments = filtered
         for r in value:
             if self not in r._ErpPayments:
                 r._ErpPayments.append(self)
@@ -87,7 +87,7 @@ class ErpPayment(Document):
     def setErpPayableLineItems(self, value):
         for p in self._ErpPayableLineItems:
             filtered = [q for q in p.ErpPayments if q != self]
-            self._ErpPayableLineItems._ErpPayments = filtered
+            p._ErpPayments = filtered
         for r in value:
             if self not in r._ErpPayments:
                 r._ErpPayments.append(self)
@@ -114,7 +114,7 @@ class ErpPayment(Document):
     def setErpInvoiceLineItems(self, value):
         for p in self._ErpInvoiceLineItems:
             filtered = [q for q in p.ErpPayments if q != self]
-            self._ErpInvoiceLineItems._ErpPayments = filtered
+            p._ErpPayments = filtered
         for r in value:
             if self not in r._ErpPayments:
                 r._ErpPayments.append(self)
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
index 304deca..314f5e9 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
@@ -192,7 +192,7 @@ class ErpPerson(IdentifiedObject):
     def setAppointments(self, value):
         for p in self._Appointments:
             filtered = [q for q in p.ErpPersons if q != self]
-            self._Appointments._ErpPersons = filtered
+            p._ErpPersons = filtered
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
@@ -220,7 +220,7 @@ class ErpPerson(IdentifiedObject):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.CrewMembers if q != self]
-            self._Crews._CrewMembers = filtered
+            p._CrewMembers = filtered
         for r in value:
             if self not in r._CrewMembers:
                 r._CrewMembers.append(self)
@@ -247,7 +247,7 @@ class ErpPerson(IdentifiedObject):
     def setLaborItems(self, value):
         for p in self._LaborItems:
             filtered = [q for q in p.ErpPersons if q != self]
-            self._LaborItems._ErpPersons = filtered
+            p._ErpPersons = filtered
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
@@ -294,7 +294,7 @@ class ErpPerson(IdentifiedObject):
     def setActivityRecords(self, value):
         for p in self._ActivityRecords:
             filtered = [q for q in p.ErpPersons if q != self]
-            self._ActivityRecords._ErpPersons = filtered
+            p._ErpPersons = filtered
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
@@ -425,7 +425,7 @@ class ErpPerson(IdentifiedObject):
     def setCrafts(self, value):
         for p in self._Crafts:
             filtered = [q for q in p.ErpPersons if q != self]
-            self._Crafts._ErpPersons = filtered
+            p._ErpPersons = filtered
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
@@ -468,7 +468,7 @@ class ErpPerson(IdentifiedObject):
     def setCallBacks(self, value):
         for p in self._CallBacks:
             filtered = [q for q in p.ErpPersons if q != self]
-            self._CallBacks._ErpPersons = filtered
+            p._ErpPersons = filtered
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
index cc02755..ecabac0 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
@@ -67,7 +67,7 @@ class ErpRecDelvLineItem(IdentifiedObject):
     def setAssets(self, value):
         for p in self._Assets:
             filtered = [q for q in p.ErpRecDeliveryItems if q != self]
-            self._Assets._ErpRecDeliveryItems = filtered
+            p._ErpRecDeliveryItems = filtered
         for r in value:
             if self not in r._ErpRecDeliveryItems:
                 r._ErpRecDeliveryItems.append(self)
@@ -127,7 +127,7 @@ class ErpRecDelvLineItem(IdentifiedObject):
     def setMaterialItems(self, value):
         for p in self._MaterialItems:
             filtered = [q for q in p.ErpRecDelvLineItems if q != self]
-            self._MaterialItems._ErpRecDelvLineItems = filtered
+            p._ErpRecDelvLineItems = filtered
         for r in value:
             if self not in r._ErpRecDelvLineItems:
                 r._ErpRecDelvLineItems.append(self)
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
index 0460f28..610278f 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
@@ -96,7 +96,7 @@ class ErpRecLineItem(IdentifiedObject):
     def setErpPayments(self, value):
         for p in self._ErpPayments:
             filtered = [q for q in p.ErpRecLineItems if q != self]
-            self._ErpPayments._ErpRecLineItems = filtered
+            p._ErpRecLineItems = filtered
         for r in value:
             if self not in r._ErpRecLineItems:
                 r._ErpRecLineItems.append(self)
@@ -123,7 +123,7 @@ class ErpRecLineItem(IdentifiedObject):
     def setErpJournalEntries(self, value):
         for p in self._ErpJournalEntries:
             filtered = [q for q in p.ErpRecLineItems if q != self]
-            self._ErpJournalEntries._ErpRecLineItems = filtered
+            p._ErpRecLineItems = filtered
         for r in value:
             if self not in r._ErpRecLineItems:
                 r._ErpRecLineItems.append(self)
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
index a841f9b..e33e01a 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
@@ -121,7 +121,7 @@ class Diagram(Document):
     def setGmlDiagramObjects(self, value):
         for p in self._GmlDiagramObjects:
             filtered = [q for q in p.Diagrams if q != self]
-            self._GmlDiagramObjects._Diagrams = filtered
+            p._Diagrams = filtered
         for r in value:
             if self not in r._Diagrams:
                 r._Diagrams.append(self)
@@ -148,7 +148,7 @@ class Diagram(Document):
     def setDesignLocations(self, value):
         for p in self._DesignLocations:
             filtered = [q for q in p.Diagrams if q != self]
-            self._DesignLocations._Diagrams = filtered
+            p._Diagrams = filtered
         for r in value:
             if self not in r._Diagrams:
                 r._Diagrams.append(self)
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
index 790e12b..3c7027a 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
@@ -80,7 +80,7 @@ class GmlDiagramObject(IdentifiedObject):
     def setGmlSelectors(self, value):
         for p in self._GmlSelectors:
             filtered = [q for q in p.GmlDiagramObjects if q != self]
-            self._GmlSelectors._GmlDiagramObjects = filtered
+            p._GmlDiagramObjects = filtered
         for r in value:
             if self not in r._GmlDiagramObjects:
                 r._GmlDiagramObjects.append(self)
@@ -107,7 +107,7 @@ class GmlDiagramObject(IdentifiedObject):
     def setDiagrams(self, value):
         for p in self._Diagrams:
             filtered = [q for q in p.GmlDiagramObjects if q != self]
-            self._Diagrams._GmlDiagramObjects = filtered
+            p._GmlDiagramObjects = filtered
         for r in value:
             if self not in r._GmlDiagramObjects:
                 r._GmlDiagramObjects.append(self)
@@ -134,7 +134,7 @@ class GmlDiagramObject(IdentifiedObject):
     def setCoordinateSystems(self, value):
         for p in self._CoordinateSystems:
             filtered = [q for q in p.GmlDiagramObjects if q != self]
-            self._CoordinateSystems._GmlDiagramObjects = filtered
+            p._GmlDiagramObjects = filtered
         for r in value:
             if self not in r._GmlDiagramObjects:
                 r._GmlDiagramObjects.append(self)
@@ -221,7 +221,7 @@ class GmlDiagramObject(IdentifiedObject):
     def setGmlObservatins(self, value):
         for p in self._GmlObservatins:
             filtered = [q for q in p.GmlDiagramObjects if q != self]
-            self._GmlObservatins._GmlDiagramObjects = filtered
+            p._GmlDiagramObjects = filtered
         for r in value:
             if self not in r._GmlDiagramObjects:
                 r._GmlDiagramObjects.append(self)
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
index d40c82f..4e597ba 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
@@ -112,7 +112,7 @@ class GmlFeatureStyle(IdentifiedObject):
     def setGmlSymbols(self, value):
         for p in self._GmlSymbols:
             filtered = [q for q in p.GmlFeatureStyles if q != self]
-            self._GmlSymbols._GmlFeatureStyles = filtered
+            p._GmlFeatureStyles = filtered
         for r in value:
             if self not in r._GmlFeatureStyles:
                 r._GmlFeatureStyles.append(self)
@@ -179,7 +179,7 @@ class GmlFeatureStyle(IdentifiedObject):
     def setGmlFeatureTypes(self, value):
         for p in self._GmlFeatureTypes:
             filtered = [q for q in p.GmlFeatureStyles if q != self]
-            self._GmlFeatureTypes._GmlFeatureStyles = filtered
+            p._GmlFeatureStyles = filtered
         for r in value:
             if self not in r._GmlFeatureStyles:
                 r._GmlFeatureStyles.append(self)
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
index ef21e0e..b9c83d6 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
@@ -48,7 +48,7 @@ class GmlFeatureType(IdentifiedObject):
     def setGmlFeatureStyles(self, value):
         for p in self._GmlFeatureStyles:
             filtered = [q for q in p.GmlFeatureTypes if q != self]
-            self._GmlFeatureStyles._GmlFeatureTypes = filtered
+            p._GmlFeatureTypes = filtered
         for r in value:
             if self not in r._GmlFeatureTypes:
                 r._GmlFeatureTypes.append(self)
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
index 50f0d4f..8b240d0 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
@@ -84,7 +84,7 @@ class GmlFill(IdentifiedObject):
     def setGmlMarks(self, value):
         for p in self._GmlMarks:
             filtered = [q for q in p.GmlFIlls if q != self]
-            self._GmlMarks._GmlFIlls = filtered
+            p._GmlFIlls = filtered
         for r in value:
             if self not in r._GmlFIlls:
                 r._GmlFIlls.append(self)
@@ -131,7 +131,7 @@ class GmlFill(IdentifiedObject):
     def setGmlSvgParameters(self, value):
         for p in self._GmlSvgParameters:
             filtered = [q for q in p.GmlFills if q != self]
-            self._GmlSvgParameters._GmlFills = filtered
+            p._GmlFills = filtered
         for r in value:
             if self not in r._GmlFills:
                 r._GmlFills.append(self)
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
index 7923b47..84f02fd 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
@@ -96,7 +96,7 @@ class GmlFont(IdentifiedObject):
     def setGmlSvgParameters(self, value):
         for p in self._GmlSvgParameters:
             filtered = [q for q in p.GmlFonts if q != self]
-            self._GmlSvgParameters._GmlFonts = filtered
+            p._GmlFonts = filtered
         for r in value:
             if self not in r._GmlFonts:
                 r._GmlFonts.append(self)
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
index a8eb787..356364b 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
@@ -80,7 +80,7 @@ class GmlGraphic(IdentifiedObject):
     def setGmlMarks(self, value):
         for p in self._GmlMarks:
             filtered = [q for q in p.GmlGraphics if q != self]
-            self._GmlMarks._GmlGraphics = filtered
+            p._GmlGraphics = filtered
         for r in value:
             if self not in r._GmlGraphics:
                 r._GmlGraphics.append(self)
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
index de445fc..4891a02 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
@@ -60,7 +60,7 @@ class GmlMark(IdentifiedObject):
     def setGmlGraphics(self, value):
         for p in self._GmlGraphics:
             filtered = [q for q in p.GmlMarks if q != self]
-            self._GmlGraphics._GmlMarks = filtered
+            p._GmlMarks = filtered
         for r in value:
             if self not in r._GmlMarks:
                 r._GmlMarks.append(self)
@@ -87,7 +87,7 @@ class GmlMark(IdentifiedObject):
     def setGmlStrokes(self, value):
         for p in self._GmlStrokes:
             filtered = [q for q in p.GmlMarks if q != self]
-            self._GmlStrokes._GmlMarks = filtered
+            p._GmlMarks = filtered
         for r in value:
             if self not in r._GmlMarks:
                 r._GmlMarks.append(self)
@@ -114,7 +114,7 @@ class GmlMark(IdentifiedObject):
     def setGmlFIlls(self, value):
         for p in self._GmlFIlls:
             filtered = [q for q in p.GmlMarks if q != self]
-            self._GmlFIlls._GmlMarks = filtered
+            p._GmlMarks = filtered
         for r in value:
             if self not in r._GmlMarks:
                 r._GmlMarks.append(self)
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
index e9170f8..bf3b127 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
@@ -72,7 +72,7 @@ class GmlObservation(Element):
     def setGmlDiagramObjects(self, value):
         for p in self._GmlDiagramObjects:
             filtered = [q for q in p.GmlObservatins if q != self]
-            self._GmlDiagramObjects._GmlObservatins = filtered
+            p._GmlObservatins = filtered
         for r in value:
             if self not in r._GmlObservatins:
                 r._GmlObservatins.append(self)
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
index 9e3d4f1..31225af 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
@@ -72,7 +72,7 @@ class GmlSelector(IdentifiedObject):
     def setGmlDiagramObjects(self, value):
         for p in self._GmlDiagramObjects:
             filtered = [q for q in p.GmlSelectors if q != self]
-            self._GmlDiagramObjects._GmlSelectors = filtered
+            p._GmlSelectors = filtered
         for r in value:
             if self not in r._GmlSelectors:
                 r._GmlSelectors.append(self)
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
index 7e020db..84525f4 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
@@ -128,7 +128,7 @@ class GmlStroke(IdentifiedObject):
     def setGmlMarks(self, value):
         for p in self._GmlMarks:
             filtered = [q for q in p.GmlStrokes if q != self]
-            self._GmlMarks._GmlStrokes = filtered
+            p._GmlStrokes = filtered
         for r in value:
             if self not in r._GmlStrokes:
                 r._GmlStrokes.append(self)
@@ -155,7 +155,7 @@ class GmlStroke(IdentifiedObject):
     def setGmlSvgParameters(self, value):
         for p in self._GmlSvgParameters:
             filtered = [q for q in p.GmlStokes if q != self]
-            self._GmlSvgParameters._GmlStokes = filtered
+            p._GmlStokes = filtered
         for r in value:
             if self not in r._GmlStokes:
                 r._GmlStokes.append(self)
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
index 2f261bc..9867517 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
@@ -64,7 +64,7 @@ class GmlSvgParameter(IdentifiedObject):
     def setGmlStokes(self, value):
         for p in self._GmlStokes:
             filtered = [q for q in p.GmlSvgParameters if q != self]
-            self._GmlStokes._GmlSvgParameters = filtered
+            p._GmlSvgParameters = filtered
         for r in value:
             if self not in r._GmlSvgParameters:
                 r._GmlSvgParameters.append(self)
@@ -91,7 +91,7 @@ class GmlSvgParameter(IdentifiedObject):
     def setGmlFonts(self, value):
         for p in self._GmlFonts:
             filtered = [q for q in p.GmlSvgParameters if q != self]
-            self._GmlFonts._GmlSvgParameters = filtered
+            p._GmlSvgParameters = filtered
         for r in value:
             if self not in r._GmlSvgParameters:
                 r._GmlSvgParameters.append(self)
@@ -118,7 +118,7 @@ class GmlSvgParameter(IdentifiedObject):
     def setGmlFills(self, value):
         for p in self._GmlFills:
             filtered = [q for q in p.GmlSvgParameters if q != self]
-            self._GmlFills._GmlSvgParameters = filtered
+            p._GmlSvgParameters = filtered
         for r in value:
             if self not in r._GmlSvgParameters:
                 r._GmlSvgParameters.append(self)
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
index e30aee4..4ee9490 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
@@ -64,7 +64,7 @@ class GmlSymbol(IdentifiedObject):
     def setGmlFeatureStyles(self, value):
         for p in self._GmlFeatureStyles:
             filtered = [q for q in p.GmlSymbols if q != self]
-            self._GmlFeatureStyles._GmlSymbols = filtered
+            p._GmlSymbols = filtered
         for r in value:
             if self not in r._GmlSymbols:
                 r._GmlSymbols.append(self)
diff --git a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
index 499d092..d3cb05f 100644
--- a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
+++ b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
@@ -76,7 +76,7 @@ class LoadMgmtFunction(EndDeviceFunction):
     def setSwitches(self, value):
         for p in self._Switches:
             filtered = [q for q in p.LoadMgmtFunctions if q != self]
-            self._Switches._LoadMgmtFunctions = filtered
+            p._LoadMgmtFunctions = filtered
         for r in value:
             if self not in r._LoadMgmtFunctions:
                 r._LoadMgmtFunctions.append(self)
diff --git a/CIM15/IEC61970/Informative/InfLocations/Hazard.py b/CIM15/IEC61970/Informative/InfLocations/Hazard.py
index 9903c50..5f7204a 100644
--- a/CIM15/IEC61970/Informative/InfLocations/Hazard.py
+++ b/CIM15/IEC61970/Informative/InfLocations/Hazard.py
@@ -56,7 +56,7 @@ class Hazard(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.Hazards if q != self]
-            self._Locations._Hazards = filtered
+            p._Hazards = filtered
         for r in value:
             if self not in r._Hazards:
                 r._Hazards.append(self)
diff --git a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
index 4944030..82ba6f7 100644
--- a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
+++ b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
@@ -150,7 +150,7 @@ class LandProperty(IdentifiedObject):
     def setErpOrganisationRoles(self, value):
         for p in self._ErpOrganisationRoles:
             filtered = [q for q in p.LandProperty if q != self]
-            self._ErpOrganisationRoles._LandProperty = filtered
+            p._LandProperty = filtered
         for r in value:
             if self not in r._LandProperty:
                 r._LandProperty.append(self)
@@ -177,7 +177,7 @@ class LandProperty(IdentifiedObject):
     def setAssetContainers(self, value):
         for p in self._AssetContainers:
             filtered = [q for q in p.LandProperties if q != self]
-            self._AssetContainers._LandProperties = filtered
+            p._LandProperties = filtered
         for r in value:
             if self not in r._LandProperties:
                 r._LandProperties.append(self)
@@ -205,7 +205,7 @@ class LandProperty(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.LandProperties if q != self]
-            self._Locations._LandProperties = filtered
+            p._LandProperties = filtered
         for r in value:
             if self not in r._LandProperties:
                 r._LandProperties.append(self)
@@ -233,7 +233,7 @@ class LandProperty(IdentifiedObject):
     def setRightOfWays(self, value):
         for p in self._RightOfWays:
             filtered = [q for q in p.LandProperties if q != self]
-            self._RightOfWays._LandProperties = filtered
+            p._LandProperties = filtered
         for r in value:
             if self not in r._LandProperties:
                 r._LandProperties.append(self)
diff --git a/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py b/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
index 52dc306..fd52104 100644
--- a/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
+++ b/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
@@ -52,7 +52,7 @@ class OrgPropertyRole(Role):
     def setLandProperty(self, value):
         for p in self._LandProperty:
             filtered = [q for q in p.ErpOrganisationRoles if q != self]
-            self._LandProperty._ErpOrganisationRoles = filtered
+            p._ErpOrganisationRoles = filtered
         for r in value:
             if self not in r._ErpOrganisationRoles:
                 r._ErpOrganisationRoles.append(self)
diff --git a/CIM15/IEC61970/Informative/InfLocations/RedLine.py b/CIM15/IEC61970/Informative/InfLocations/RedLine.py
index 4fc35d4..dbb253b 100644
--- a/CIM15/IEC61970/Informative/InfLocations/RedLine.py
+++ b/CIM15/IEC61970/Informative/InfLocations/RedLine.py
@@ -51,7 +51,7 @@ class RedLine(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.RedLines if q != self]
-            self._Locations._RedLines = filtered
+            p._RedLines = filtered
         for r in value:
             if self not in r._RedLines:
                 r._RedLines.append(self)
diff --git a/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py b/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
index f10bac7..6e03076 100644
--- a/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
+++ b/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
@@ -53,7 +53,7 @@ class RightOfWay(Agreement):
     def setLandProperties(self, value):
         for p in self._LandProperties:
             filtered = [q for q in p.RightOfWays if q != self]
-            self._LandProperties._RightOfWays = filtered
+            p._RightOfWays = filtered
         for r in value:
             if self not in r._RightOfWays:
                 r._RightOfWays.append(self)
diff --git a/CIM15/IEC61970/Informative/InfLocations/Route.py b/CIM15/IEC61970/Informative/InfLocations/Route.py
index d358b0b..de19f05 100644
--- a/CIM15/IEC61970/Informative/InfLocations/Route.py
+++ b/CIM15/IEC61970/Informative/InfLocations/Route.py
@@ -81,7 +81,7 @@ class Route(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.Routes if q != self]
-            self._Locations._Routes = filtered
+            p._Routes = filtered
         for r in value:
             if self not in r._Routes:
                 r._Routes.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/CallBack.py b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
index 9b5d925..9fa77cf 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CallBack.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
@@ -99,7 +99,7 @@ class CallBack(IdentifiedObject):
     def setErpPersons(self, value):
         for p in self._ErpPersons:
             filtered = [q for q in p.CallBacks if q != self]
-            self._ErpPersons._CallBacks = filtered
+            p._CallBacks = filtered
         for r in value:
             if self not in r._CallBacks:
                 r._CallBacks.append(self)
@@ -126,7 +126,7 @@ class CallBack(IdentifiedObject):
     def setTroubleTickets(self, value):
         for p in self._TroubleTickets:
             filtered = [q for q in p.CallBacks if q != self]
-            self._TroubleTickets._CallBacks = filtered
+            p._CallBacks = filtered
         for r in value:
             if self not in r._CallBacks:
                 r._CallBacks.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
index 49e59f2..bec6d70 100644
--- a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
@@ -59,7 +59,7 @@ class ChangeSet(IdentifiedObject):
     def setNetworkDataSets(self, value):
         for p in self._NetworkDataSets:
             filtered = [q for q in p.ChangeSets if q != self]
-            self._NetworkDataSets._ChangeSets = filtered
+            p._ChangeSets = filtered
         for r in value:
             if self not in r._ChangeSets:
                 r._ChangeSets.append(self)
@@ -108,7 +108,7 @@ class ChangeSet(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.ChangeSets if q != self]
-            self._Documents._ChangeSets = filtered
+            p._ChangeSets = filtered
         for r in value:
             if self not in r._ChangeSets:
                 r._ChangeSets.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/Circuit.py b/CIM15/IEC61970/Informative/InfOperations/Circuit.py
index e822be8..70fc5c8 100644
--- a/CIM15/IEC61970/Informative/InfOperations/Circuit.py
+++ b/CIM15/IEC61970/Informative/InfOperations/Circuit.py
@@ -48,7 +48,7 @@ class Circuit(EquipmentContainer):
     def setCircuitSections(self, value):
         for p in self._CircuitSections:
             filtered = [q for q in p.Circuits if q != self]
-            self._CircuitSections._Circuits = filtered
+            p._Circuits = filtered
         for r in value:
             if self not in r._Circuits:
                 r._Circuits.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
index cf72366..1a4a4c5 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
@@ -76,7 +76,7 @@ class CircuitSection(IdentifiedObject):
     def setCircuits(self, value):
         for p in self._Circuits:
             filtered = [q for q in p.CircuitSections if q != self]
-            self._Circuits._CircuitSections = filtered
+            p._CircuitSections = filtered
         for r in value:
             if self not in r._CircuitSections:
                 r._CircuitSections.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py b/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
index 12a987b..3e08db1 100644
--- a/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
+++ b/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
@@ -52,7 +52,7 @@ class IncidentCode(IdentifiedObject):
     def setIncidentRecords(self, value):
         for p in self._IncidentRecords:
             filtered = [q for q in p.IncidentCodes if q != self]
-            self._IncidentRecords._IncidentCodes = filtered
+            p._IncidentCodes = filtered
         for r in value:
             if self not in r._IncidentCodes:
                 r._IncidentCodes.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
index 9e27ecd..23fe75c 100644
--- a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
@@ -78,7 +78,7 @@ class IncidentRecord(Document):
     def setIncidentCodes(self, value):
         for p in self._IncidentCodes:
             filtered = [q for q in p.IncidentRecords if q != self]
-            self._IncidentCodes._IncidentRecords = filtered
+            p._IncidentRecords = filtered
         for r in value:
             if self not in r._IncidentRecords:
                 r._IncidentRecords.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
index 04f1f32..0d3c02d 100644
--- a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
@@ -69,7 +69,7 @@ class NetworkDataSet(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.NetworkDataSets if q != self]
-            self._Documents._NetworkDataSets = filtered
+            p._NetworkDataSets = filtered
         for r in value:
             if self not in r._NetworkDataSets:
                 r._NetworkDataSets.append(self)
@@ -116,7 +116,7 @@ class NetworkDataSet(IdentifiedObject):
     def setChangeSets(self, value):
         for p in self._ChangeSets:
             filtered = [q for q in p.NetworkDataSets if q != self]
-            self._ChangeSets._NetworkDataSets = filtered
+            p._NetworkDataSets = filtered
         for r in value:
             if self not in r._NetworkDataSets:
                 r._NetworkDataSets.append(self)
@@ -143,7 +143,7 @@ class NetworkDataSet(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.NetworkDataSets if q != self]
-            self._PowerSystemResources._NetworkDataSets = filtered
+            p._NetworkDataSets = filtered
         for r in value:
             if self not in r._NetworkDataSets:
                 r._NetworkDataSets.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageCode.py b/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
index adab655..f19f08a 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
@@ -56,7 +56,7 @@ class OutageCode(IdentifiedObject):
     def setOutageRecords(self, value):
         for p in self._OutageRecords:
             filtered = [q for q in p.OutageCodes if q != self]
-            self._OutageRecords._OutageCodes = filtered
+            p._OutageCodes = filtered
         for r in value:
             if self not in r._OutageCodes:
                 r._OutageCodes.append(self)
@@ -83,7 +83,7 @@ class OutageCode(IdentifiedObject):
     def setOutageSteps(self, value):
         for p in self._OutageSteps:
             filtered = [q for q in p.OutageCodes if q != self]
-            self._OutageSteps._OutageCodes = filtered
+            p._OutageCodes = filtered
         for r in value:
             if self not in r._OutageCodes:
                 r._OutageCodes.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py b/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
index bd94a74..161ad28 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
@@ -60,7 +60,7 @@ class OutageNotification(Document):
     def setCustomerDatas(self, value):
         for p in self._CustomerDatas:
             filtered = [q for q in p.OutageNotifications if q != self]
-            self._CustomerDatas._OutageNotifications = filtered
+            p._OutageNotifications = filtered
         for r in value:
             if self not in r._OutageNotifications:
                 r._OutageNotifications.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
index 31364cc..ba1ac1d 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
@@ -77,7 +77,7 @@ class OutageRecord(Document):
     def setOutageCodes(self, value):
         for p in self._OutageCodes:
             filtered = [q for q in p.OutageRecords if q != self]
-            self._OutageCodes._OutageRecords = filtered
+            p._OutageRecords = filtered
         for r in value:
             if self not in r._OutageRecords:
                 r._OutageRecords.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
index 1430f26..1e2c5ae 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
@@ -114,7 +114,7 @@ class OutageStep(IdentifiedObject):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.OutageSteps if q != self]
-            self._Crews._OutageSteps = filtered
+            p._OutageSteps = filtered
         for r in value:
             if self not in r._OutageSteps:
                 r._OutageSteps.append(self)
@@ -183,7 +183,7 @@ class OutageStep(IdentifiedObject):
     def setOutageCodes(self, value):
         for p in self._OutageCodes:
             filtered = [q for q in p.OutageSteps if q != self]
-            self._OutageCodes._OutageSteps = filtered
+            p._OutageSteps = filtered
         for r in value:
             if self not in r._OutageSteps:
                 r._OutageSteps.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
index d41e642..0593cb1 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
@@ -100,7 +100,7 @@ class SwitchingSchedule(Document):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.SwitchingSchedules if q != self]
-            self._Crews._SwitchingSchedules = filtered
+            p._SwitchingSchedules = filtered
         for r in value:
             if self not in r._SwitchingSchedules:
                 r._SwitchingSchedules.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py b/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
index cc92d60..6cdab40 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
@@ -114,7 +114,7 @@ class SwitchingStep(IdentifiedObject):
     def setPowerSystemResources(self, value):
         for p in self._PowerSystemResources:
             filtered = [q for q in p.ScheduleSteps if q != self]
-            self._PowerSystemResources._ScheduleSteps = filtered
+            p._ScheduleSteps = filtered
         for r in value:
             if self not in r._ScheduleSteps:
                 r._ScheduleSteps.append(self)
diff --git a/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py b/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
index c94c164..c366e78 100644
--- a/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
+++ b/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
@@ -95,7 +95,7 @@ class TroubleTicket(Document):
     def setCallBacks(self, value):
         for p in self._CallBacks:
             filtered = [q for q in p.TroubleTickets if q != self]
-            self._CallBacks._TroubleTickets = filtered
+            p._TroubleTickets = filtered
         for r in value:
             if self not in r._TroubleTickets:
                 r._TroubleTickets.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/Appointment.py b/CIM15/IEC61970/Informative/InfWork/Appointment.py
index 8a31a72..85e65e6 100644
--- a/CIM15/IEC61970/Informative/InfWork/Appointment.py
+++ b/CIM15/IEC61970/Informative/InfWork/Appointment.py
@@ -69,7 +69,7 @@ class Appointment(ScheduledEvent):
     def setErpPersons(self, value):
         for p in self._ErpPersons:
             filtered = [q for q in p.Appointments if q != self]
-            self._ErpPersons._Appointments = filtered
+            p._Appointments = filtered
         for r in value:
             if self not in r._Appointments:
                 r._Appointments.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/Assignment.py b/CIM15/IEC61970/Informative/InfWork/Assignment.py
index 0c83a2f..95f5ddf 100644
--- a/CIM15/IEC61970/Informative/InfWork/Assignment.py
+++ b/CIM15/IEC61970/Informative/InfWork/Assignment.py
@@ -52,7 +52,7 @@ class Assignment(Document):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.Assignments if q != self]
-            self._Crews._Assignments = filtered
+            p._Assignments = filtered
         for r in value:
             if self not in r._Assignments:
                 r._Assignments.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/CUAsset.py b/CIM15/IEC61970/Informative/InfWork/CUAsset.py
index a7f3338..7b23958 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUAsset.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUAsset.py
@@ -63,7 +63,7 @@ class CUAsset(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.CUAssets if q != self]
-            self._CompatibleUnits._CUAssets = filtered
+            p._CUAssets = filtered
         for r in value:
             if self not in r._CUAssets:
                 r._CUAssets.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py b/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
index 7721659..9131be3 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
@@ -59,7 +59,7 @@ class CUContractorItem(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.CUContractorItems if q != self]
-            self._CompatibleUnits._CUContractorItems = filtered
+            p._CUContractorItems = filtered
         for r in value:
             if self not in r._CUContractorItems:
                 r._CUContractorItems.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/CUGroup.py b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
index 2784fbd..1ed9f35 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUGroup.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
@@ -83,7 +83,7 @@ class CUGroup(IdentifiedObject):
     def setParentCUGroups(self, value):
         for p in self._ParentCUGroups:
             filtered = [q for q in p.ChildCUGroups if q != self]
-            self._ParentCUGroups._ChildCUGroups = filtered
+            p._ChildCUGroups = filtered
         for r in value:
             if self not in r._ChildCUGroups:
                 r._ChildCUGroups.append(self)
@@ -110,7 +110,7 @@ class CUGroup(IdentifiedObject):
     def setChildCUGroups(self, value):
         for p in self._ChildCUGroups:
             filtered = [q for q in p.ParentCUGroups if q != self]
-            self._ChildCUGroups._ParentCUGroups = filtered
+            p._ParentCUGroups = filtered
         for r in value:
             if self not in r._ParentCUGroups:
                 r._ParentCUGroups.append(self)
@@ -139,7 +139,7 @@ class CUGroup(IdentifiedObject):
     def setDesignLocationCUs(self, value):
         for p in self._DesignLocationCUs:
             filtered = [q for q in p.CUGroups if q != self]
-            self._DesignLocationCUs._CUGroups = filtered
+            p._CUGroups = filtered
         for r in value:
             if self not in r._CUGroups:
                 r._CUGroups.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/CULaborItem.py b/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
index b7cad0d..d441139 100644
--- a/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
@@ -71,7 +71,7 @@ class CULaborItem(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.CULaborItems if q != self]
-            self._CompatibleUnits._CULaborItems = filtered
+            p._CULaborItems = filtered
         for r in value:
             if self not in r._CULaborItems:
                 r._CULaborItems.append(self)
@@ -116,7 +116,7 @@ class CULaborItem(IdentifiedObject):
     def setQualificationRequirements(self, value):
         for p in self._QualificationRequirements:
             filtered = [q for q in p.CULaborItems if q != self]
-            self._QualificationRequirements._CULaborItems = filtered
+            p._CULaborItems = filtered
         for r in value:
             if self not in r._CULaborItems:
                 r._CULaborItems.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py b/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
index e3b091d..69aeeba 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
@@ -69,7 +69,7 @@ class CUMaterialItem(IdentifiedObject):
     def setPropertyUnits(self, value):
         for p in self._PropertyUnits:
             filtered = [q for q in p.CUMaterialItems if q != self]
-            self._PropertyUnits._CUMaterialItems = filtered
+            p._CUMaterialItems = filtered
         for r in value:
             if self not in r._CUMaterialItems:
                 r._CUMaterialItems.append(self)
@@ -96,7 +96,7 @@ class CUMaterialItem(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.CUMaterialItems if q != self]
-            self._CompatibleUnits._CUMaterialItems = filtered
+            p._CUMaterialItems = filtered
         for r in value:
             if self not in r._CUMaterialItems:
                 r._CUMaterialItems.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py b/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
index 6ef13b4..273aa5e 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
@@ -80,7 +80,7 @@ class CUWorkEquipmentItem(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.CUWorkEquipmentItems if q != self]
-            self._CompatibleUnits._CUWorkEquipmentItems = filtered
+            p._CUWorkEquipmentItems = filtered
         for r in value:
             if self not in r._CUWorkEquipmentItems:
                 r._CUWorkEquipmentItems.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/Capability.py b/CIM15/IEC61970/Informative/InfWork/Capability.py
index f62207f..230429c 100644
--- a/CIM15/IEC61970/Informative/InfWork/Capability.py
+++ b/CIM15/IEC61970/Informative/InfWork/Capability.py
@@ -86,7 +86,7 @@ class Capability(IdentifiedObject):
     def setWorkTasks(self, value):
         for p in self._WorkTasks:
             filtered = [q for q in p.Capabilities if q != self]
-            self._WorkTasks._Capabilities = filtered
+            p._Capabilities = filtered
         for r in value:
             if self not in r._Capabilities:
                 r._Capabilities.append(self)
@@ -115,7 +115,7 @@ class Capability(IdentifiedObject):
     def setCrafts(self, value):
         for p in self._Crafts:
             filtered = [q for q in p.Capabilities if q != self]
-            self._Crafts._Capabilities = filtered
+            p._Capabilities = filtered
         for r in value:
             if self not in r._Capabilities:
                 r._Capabilities.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py b/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
index 83e08d0..2562038 100644
--- a/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
+++ b/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
@@ -96,7 +96,7 @@ class CompatibleUnit(Document):
     def setCUWorkEquipmentItems(self, value):
         for p in self._CUWorkEquipmentItems:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._CUWorkEquipmentItems._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
@@ -123,7 +123,7 @@ class CompatibleUnit(Document):
     def setDesignLocationCUs(self, value):
         for p in self._DesignLocationCUs:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._DesignLocationCUs._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
@@ -166,7 +166,7 @@ class CompatibleUnit(Document):
     def setCUAssets(self, value):
         for p in self._CUAssets:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._CUAssets._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
@@ -241,7 +241,7 @@ class CompatibleUnit(Document):
     def setProcedures(self, value):
         for p in self._Procedures:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._Procedures._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
@@ -268,7 +268,7 @@ class CompatibleUnit(Document):
     def setCUContractorItems(self, value):
         for p in self._CUContractorItems:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._CUContractorItems._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
@@ -295,7 +295,7 @@ class CompatibleUnit(Document):
     def setCUMaterialItems(self, value):
         for p in self._CUMaterialItems:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._CUMaterialItems._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
@@ -322,7 +322,7 @@ class CompatibleUnit(Document):
     def setCULaborItems(self, value):
         for p in self._CULaborItems:
             filtered = [q for q in p.CompatibleUnits if q != self]
-            self._CULaborItems._CompatibleUnits = filtered
+            p._CompatibleUnits = filtered
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py b/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
index 0286c0b..9eb8271 100644
--- a/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
+++ b/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
@@ -67,7 +67,7 @@ class ConditionFactor(IdentifiedObject):
     def setDesigns(self, value):
         for p in self._Designs:
             filtered = [q for q in p.ConditionFactors if q != self]
-            self._Designs._ConditionFactors = filtered
+            p._ConditionFactors = filtered
         for r in value:
             if self not in r._ConditionFactors:
                 r._ConditionFactors.append(self)
@@ -94,7 +94,7 @@ class ConditionFactor(IdentifiedObject):
     def setDesignLocations(self, value):
         for p in self._DesignLocations:
             filtered = [q for q in p.ConditionFactors if q != self]
-            self._DesignLocations._ConditionFactors = filtered
+            p._ConditionFactors = filtered
         for r in value:
             if self not in r._ConditionFactors:
                 r._ConditionFactors.append(self)
@@ -123,7 +123,7 @@ class ConditionFactor(IdentifiedObject):
     def setDesignLocationCUs(self, value):
         for p in self._DesignLocationCUs:
             filtered = [q for q in p.ConditionFactors if q != self]
-            self._DesignLocationCUs._ConditionFactors = filtered
+            p._ConditionFactors = filtered
         for r in value:
             if self not in r._ConditionFactors:
                 r._ConditionFactors.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/ContractorItem.py b/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
index 9c0e8d4..176d0e0 100644
--- a/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
@@ -87,7 +87,7 @@ class ContractorItem(IdentifiedObject):
     def setErpPayables(self, value):
         for p in self._ErpPayables:
             filtered = [q for q in p.ContractorItems if q != self]
-            self._ErpPayables._ContractorItems = filtered
+            p._ContractorItems = filtered
         for r in value:
             if self not in r._ContractorItems:
                 r._ContractorItems.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/CostType.py b/CIM15/IEC61970/Informative/InfWork/CostType.py
index 82beb9b..32b9f99 100644
--- a/CIM15/IEC61970/Informative/InfWork/CostType.py
+++ b/CIM15/IEC61970/Informative/InfWork/CostType.py
@@ -83,7 +83,7 @@ class CostType(IdentifiedObject):
     def setErpJournalEntries(self, value):
         for p in self._ErpJournalEntries:
             filtered = [q for q in p.CostTypes if q != self]
-            self._ErpJournalEntries._CostTypes = filtered
+            p._CostTypes = filtered
         for r in value:
             if self not in r._CostTypes:
                 r._CostTypes.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/Crew.py b/CIM15/IEC61970/Informative/InfWork/Crew.py
index 95c1b14..18840f1 100644
--- a/CIM15/IEC61970/Informative/InfWork/Crew.py
+++ b/CIM15/IEC61970/Informative/InfWork/Crew.py
@@ -121,7 +121,7 @@ class Crew(IdentifiedObject):
     def setSwitchingSchedules(self, value):
         for p in self._SwitchingSchedules:
             filtered = [q for q in p.Crews if q != self]
-            self._SwitchingSchedules._Crews = filtered
+            p._Crews = filtered
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
@@ -185,7 +185,7 @@ class Crew(IdentifiedObject):
     def setCrewMembers(self, value):
         for p in self._CrewMembers:
             filtered = [q for q in p.Crews if q != self]
-            self._CrewMembers._Crews = filtered
+            p._Crews = filtered
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
@@ -212,7 +212,7 @@ class Crew(IdentifiedObject):
     def setOutageSteps(self, value):
         for p in self._OutageSteps:
             filtered = [q for q in p.Crews if q != self]
-            self._OutageSteps._Crews = filtered
+            p._Crews = filtered
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
@@ -260,7 +260,7 @@ class Crew(IdentifiedObject):
     def setAssignments(self, value):
         for p in self._Assignments:
             filtered = [q for q in p.Crews if q != self]
-            self._Assignments._Crews = filtered
+            p._Crews = filtered
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
@@ -287,7 +287,7 @@ class Crew(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.Crews if q != self]
-            self._Locations._Crews = filtered
+            p._Crews = filtered
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
@@ -315,7 +315,7 @@ class Crew(IdentifiedObject):
     def setWorkTasks(self, value):
         for p in self._WorkTasks:
             filtered = [q for q in p.Crews if q != self]
-            self._WorkTasks._Crews = filtered
+            p._Crews = filtered
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
@@ -342,7 +342,7 @@ class Crew(IdentifiedObject):
     def setOrganisations(self, value):
         for p in self._Organisations:
             filtered = [q for q in p.Crews if q != self]
-            self._Organisations._Crews = filtered
+            p._Crews = filtered
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
@@ -369,7 +369,7 @@ class Crew(IdentifiedObject):
     def setShiftPatterns(self, value):
         for p in self._ShiftPatterns:
             filtered = [q for q in p.Crews if q != self]
-            self._ShiftPatterns._Crews = filtered
+            p._Crews = filtered
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/Design.py b/CIM15/IEC61970/Informative/InfWork/Design.py
index 9951db2..3ad83f7 100644
--- a/CIM15/IEC61970/Informative/InfWork/Design.py
+++ b/CIM15/IEC61970/Informative/InfWork/Design.py
@@ -88,7 +88,7 @@ class Design(Document):
     def setDesignLocations(self, value):
         for p in self._DesignLocations:
             filtered = [q for q in p.Designs if q != self]
-            self._DesignLocations._Designs = filtered
+            p._Designs = filtered
         for r in value:
             if self not in r._Designs:
                 r._Designs.append(self)
@@ -135,7 +135,7 @@ class Design(Document):
     def setConditionFactors(self, value):
         for p in self._ConditionFactors:
             filtered = [q for q in p.Designs if q != self]
-            self._ConditionFactors._Designs = filtered
+            p._Designs = filtered
         for r in value:
             if self not in r._Designs:
                 r._Designs.append(self)
@@ -218,7 +218,7 @@ class Design(Document):
     def setDesignLocationsCUs(self, value):
         for p in self._DesignLocationsCUs:
             filtered = [q for q in p.Designs if q != self]
-            self._DesignLocationsCUs._Designs = filtered
+            p._Designs = filtered
         for r in value:
             if self not in r._Designs:
                 r._Designs.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
index a2ebd0b..8ec45be 100644
--- a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
+++ b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
@@ -105,7 +105,7 @@ class DesignLocation(IdentifiedObject):
     def setDesigns(self, value):
         for p in self._Designs:
             filtered = [q for q in p.DesignLocations if q != self]
-            self._Designs._DesignLocations = filtered
+            p._DesignLocations = filtered
         for r in value:
             if self not in r._DesignLocations:
                 r._DesignLocations.append(self)
@@ -152,7 +152,7 @@ class DesignLocation(IdentifiedObject):
     def setWorkLocations(self, value):
         for p in self._WorkLocations:
             filtered = [q for q in p.DesignLocations if q != self]
-            self._WorkLocations._DesignLocations = filtered
+            p._DesignLocations = filtered
         for r in value:
             if self not in r._DesignLocations:
                 r._DesignLocations.append(self)
@@ -179,7 +179,7 @@ class DesignLocation(IdentifiedObject):
     def setDiagrams(self, value):
         for p in self._Diagrams:
             filtered = [q for q in p.DesignLocations if q != self]
-            self._Diagrams._DesignLocations = filtered
+            p._DesignLocations = filtered
         for r in value:
             if self not in r._DesignLocations:
                 r._DesignLocations.append(self)
@@ -246,7 +246,7 @@ class DesignLocation(IdentifiedObject):
     def setConditionFactors(self, value):
         for p in self._ConditionFactors:
             filtered = [q for q in p.DesignLocations if q != self]
-            self._ConditionFactors._DesignLocations = filtered
+            p._DesignLocations = filtered
         for r in value:
             if self not in r._DesignLocations:
                 r._DesignLocations.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py b/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
index 7bb9b50..f4e8ade 100644
--- a/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
+++ b/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
@@ -95,7 +95,7 @@ class DesignLocationCU(IdentifiedObject):
     def setConditionFactors(self, value):
         for p in self._ConditionFactors:
             filtered = [q for q in p.DesignLocationCUs if q != self]
-            self._ConditionFactors._DesignLocationCUs = filtered
+            p._DesignLocationCUs = filtered
         for r in value:
             if self not in r._DesignLocationCUs:
                 r._DesignLocationCUs.append(self)
@@ -122,7 +122,7 @@ class DesignLocationCU(IdentifiedObject):
     def setCompatibleUnits(self, value):
         for p in self._CompatibleUnits:
             filtered = [q for q in p.DesignLocationCUs if q != self]
-            self._CompatibleUnits._DesignLocationCUs = filtered
+            p._DesignLocationCUs = filtered
         for r in value:
             if self not in r._DesignLocationCUs:
                 r._DesignLocationCUs.append(self)
@@ -149,7 +149,7 @@ class DesignLocationCU(IdentifiedObject):
     def setWorkTasks(self, value):
         for p in self._WorkTasks:
             filtered = [q for q in p.DesignLocationCUs if q != self]
-            self._WorkTasks._DesignLocationCUs = filtered
+            p._DesignLocationCUs = filtered
         for r in value:
             if self not in r._DesignLocationCUs:
                 r._DesignLocationCUs.append(self)
@@ -176,7 +176,7 @@ class DesignLocationCU(IdentifiedObject):
     def setDesigns(self, value):
         for p in self._Designs:
             filtered = [q for q in p.DesignLocationsCUs if q != self]
-            self._Designs._DesignLocationsCUs = filtered
+            p._DesignLocationsCUs = filtered
         for r in value:
             if self not in r._DesignLocationsCUs:
                 r._DesignLocationsCUs.append(self)
@@ -203,7 +203,7 @@ class DesignLocationCU(IdentifiedObject):
     def setCUGroups(self, value):
         for p in self._CUGroups:
             filtered = [q for q in p.DesignLocationCUs if q != self]
-            self._CUGroups._DesignLocationCUs = filtered
+            p._DesignLocationCUs = filtered
         for r in value:
             if self not in r._DesignLocationCUs:
                 r._DesignLocationCUs.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/LaborItem.py b/CIM15/IEC61970/Informative/InfWork/LaborItem.py
index 6bcac16..c203dbb 100644
--- a/CIM15/IEC61970/Informative/InfWork/LaborItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/LaborItem.py
@@ -75,7 +75,7 @@ class LaborItem(IdentifiedObject):
     def setErpPersons(self, value):
         for p in self._ErpPersons:
             filtered = [q for q in p.LaborItems if q != self]
-            self._ErpPersons._LaborItems = filtered
+            p._LaborItems = filtered
         for r in value:
             if self not in r._LaborItems:
                 r._LaborItems.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
index dd09634..2819d41 100644
--- a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
@@ -167,7 +167,7 @@ class MaterialItem(IdentifiedObject):
     def setErpRecDelvLineItems(self, value):
         for p in self._ErpRecDelvLineItems:
             filtered = [q for q in p.MaterialItems if q != self]
-            self._ErpRecDelvLineItems._MaterialItems = filtered
+            p._MaterialItems = filtered
         for r in value:
             if self not in r._MaterialItems:
                 r._MaterialItems.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/Project.py b/CIM15/IEC61970/Informative/InfWork/Project.py
index b50dfef..4be3a48 100644
--- a/CIM15/IEC61970/Informative/InfWork/Project.py
+++ b/CIM15/IEC61970/Informative/InfWork/Project.py
@@ -124,7 +124,7 @@ class Project(Document):
     def setRequests(self, value):
         for p in self._Requests:
             filtered = [q for q in p.Projects if q != self]
-            self._Requests._Projects = filtered
+            p._Projects = filtered
         for r in value:
             if self not in r._Projects:
                 r._Projects.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
index 25124ea..3a4d861 100644
--- a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
+++ b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
@@ -93,7 +93,7 @@ class PropertyUnit(IdentifiedObject):
     def setCUMaterialItems(self, value):
         for p in self._CUMaterialItems:
             filtered = [q for q in p.PropertyUnits if q != self]
-            self._CUMaterialItems._PropertyUnits = filtered
+            p._PropertyUnits = filtered
         for r in value:
             if self not in r._PropertyUnits:
                 r._PropertyUnits.append(self)
@@ -120,7 +120,7 @@ class PropertyUnit(IdentifiedObject):
     def setWorkCostDetails(self, value):
         for p in self._WorkCostDetails:
             filtered = [q for q in p.PropertyUnits if q != self]
-            self._WorkCostDetails._PropertyUnits = filtered
+            p._PropertyUnits = filtered
         for r in value:
             if self not in r._PropertyUnits:
                 r._PropertyUnits.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py b/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
index 0e538af..87765bd 100644
--- a/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
+++ b/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
@@ -64,7 +64,7 @@ class QualificationRequirement(IdentifiedObject):
     def setWorkTasks(self, value):
         for p in self._WorkTasks:
             filtered = [q for q in p.QualificationRequirements if q != self]
-            self._WorkTasks._QualificationRequirements = filtered
+            p._QualificationRequirements = filtered
         for r in value:
             if self not in r._QualificationRequirements:
                 r._QualificationRequirements.append(self)
@@ -91,7 +91,7 @@ class QualificationRequirement(IdentifiedObject):
     def setSkills(self, value):
         for p in self._Skills:
             filtered = [q for q in p.QualificationRequirements if q != self]
-            self._Skills._QualificationRequirements = filtered
+            p._QualificationRequirements = filtered
         for r in value:
             if self not in r._QualificationRequirements:
                 r._QualificationRequirements.append(self)
@@ -118,7 +118,7 @@ class QualificationRequirement(IdentifiedObject):
     def setCULaborItems(self, value):
         for p in self._CULaborItems:
             filtered = [q for q in p.QualificationRequirements if q != self]
-            self._CULaborItems._QualificationRequirements = filtered
+            p._QualificationRequirements = filtered
         for r in value:
             if self not in r._QualificationRequirements:
                 r._QualificationRequirements.append(self)
@@ -145,7 +145,7 @@ class QualificationRequirement(IdentifiedObject):
     def setSpecifications(self, value):
         for p in self._Specifications:
             filtered = [q for q in p.QualificationRequirements if q != self]
-            self._Specifications._QualificationRequirements = filtered
+            p._QualificationRequirements = filtered
         for r in value:
             if self not in r._QualificationRequirements:
                 r._QualificationRequirements.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/Request.py b/CIM15/IEC61970/Informative/InfWork/Request.py
index 8981e54..a05b581 100644
--- a/CIM15/IEC61970/Informative/InfWork/Request.py
+++ b/CIM15/IEC61970/Informative/InfWork/Request.py
@@ -87,7 +87,7 @@ class Request(Document):
     def setProjects(self, value):
         for p in self._Projects:
             filtered = [q for q in p.Requests if q != self]
-            self._Projects._Requests = filtered
+            p._Requests = filtered
         for r in value:
             if self not in r._Requests:
                 r._Requests.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py b/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
index cfe7bb9..d35ba08 100644
--- a/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
+++ b/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
@@ -62,7 +62,7 @@ class ShiftPattern(IdentifiedObject):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.ShiftPatterns if q != self]
-            self._Crews._ShiftPatterns = filtered
+            p._ShiftPatterns = filtered
         for r in value:
             if self not in r._ShiftPatterns:
                 r._ShiftPatterns.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
index c6b3db3..dabdae9 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
@@ -128,7 +128,7 @@ class WorkCostDetail(Document):
     def setWorks(self, value):
         for p in self._Works:
             filtered = [q for q in p.WorkCostDetails if q != self]
-            self._Works._WorkCostDetails = filtered
+            p._WorkCostDetails = filtered
         for r in value:
             if self not in r._WorkCostDetails:
                 r._WorkCostDetails.append(self)
@@ -206,7 +206,7 @@ class WorkCostDetail(Document):
     def setPropertyUnits(self, value):
         for p in self._PropertyUnits:
             filtered = [q for q in p.WorkCostDetails if q != self]
-            self._PropertyUnits._WorkCostDetails = filtered
+            p._WorkCostDetails = filtered
         for r in value:
             if self not in r._WorkCostDetails:
                 r._WorkCostDetails.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkLocation.py b/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
index e19d77c..1c6e64c 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
@@ -84,7 +84,7 @@ class WorkLocation(Location):
     def setDesignLocations(self, value):
         for p in self._DesignLocations:
             filtered = [q for q in p.WorkLocations if q != self]
-            self._DesignLocations._WorkLocations = filtered
+            p._WorkLocations = filtered
         for r in value:
             if self not in r._WorkLocations:
                 r._WorkLocations.append(self)
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkTask.py b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
index ea4b11d..e31f8b7 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkTask.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
@@ -181,7 +181,7 @@ class WorkTask(Document):
     def setCrews(self, value):
         for p in self._Crews:
             filtered = [q for q in p.WorkTasks if q != self]
-            self._Crews._WorkTasks = filtered
+            p._WorkTasks = filtered
         for r in value:
             if self not in r._WorkTasks:
                 r._WorkTasks.append(self)
@@ -240,7 +240,7 @@ class WorkTask(Document):
     def setDesignLocationCUs(self, value):
         for p in self._DesignLocationCUs:
             filtered = [q for q in p.WorkTasks if q != self]
-            self._DesignLocationCUs._WorkTasks = filtered
+            p._WorkTasks = filtered
         for r in value:
             if self not in r._WorkTasks:
                 r._WorkTasks.append(self)
@@ -339,7 +339,7 @@ class WorkTask(Document):
     def setQualificationRequirements(self, value):
         for p in self._QualificationRequirements:
             filtered = [q for q in p.WorkTasks if q != self]
-            self._QualificationRequirements._WorkTasks = filtered
+            p._WorkTasks = filtered
         for r in value:
             if self not in r._WorkTasks:
                 r._WorkTasks.append(self)
@@ -366,7 +366,7 @@ class WorkTask(Document):
     def setCapabilities(self, value):
         for p in self._Capabilities:
             filtered = [q for q in p.WorkTasks if q != self]
-            self._Capabilities._WorkTasks = filtered
+            p._WorkTasks = filtered
         for r in value:
             if self not in r._WorkTasks:
                 r._WorkTasks.append(self)
diff --git a/CIM15/IEC61970/Meas/Accumulator.py b/CIM15/IEC61970/Meas/Accumulator.py
index 933e01d..563cc42 100644
--- a/CIM15/IEC61970/Meas/Accumulator.py
+++ b/CIM15/IEC61970/Meas/Accumulator.py
@@ -57,7 +57,7 @@ class Accumulator(Measurement):
     def setLimitSets(self, value):
         for p in self._LimitSets:
             filtered = [q for q in p.Measurements if q != self]
-            self._LimitSets._Measurements = filtered
+            p._Measurements = filtered
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
diff --git a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
index 5ccd029..942c300 100644
--- a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
@@ -74,7 +74,7 @@ class AccumulatorLimitSet(LimitSet):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.LimitSets if q != self]
-            self._Measurements._LimitSets = filtered
+            p._LimitSets = filtered
         for r in value:
             if self not in r._LimitSets:
                 r._LimitSets.append(self)
diff --git a/CIM15/IEC61970/Meas/Analog.py b/CIM15/IEC61970/Meas/Analog.py
index 262c082..93b2cb6 100644
--- a/CIM15/IEC61970/Meas/Analog.py
+++ b/CIM15/IEC61970/Meas/Analog.py
@@ -73,7 +73,7 @@ class Analog(Measurement):
     def setLimitSets(self, value):
         for p in self._LimitSets:
             filtered = [q for q in p.Measurements if q != self]
-            self._LimitSets._Measurements = filtered
+            p._Measurements = filtered
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
diff --git a/CIM15/IEC61970/Meas/AnalogLimitSet.py b/CIM15/IEC61970/Meas/AnalogLimitSet.py
index e6bd72c..e8375a6 100644
--- a/CIM15/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM15/IEC61970/Meas/AnalogLimitSet.py
@@ -74,7 +74,7 @@ class AnalogLimitSet(LimitSet):
     def setMeasurements(self, value):
         for p in self._Measurements:
             filtered = [q for q in p.LimitSets if q != self]
-            self._Measurements._LimitSets = filtered
+            p._LimitSets = filtered
         for r in value:
             if self not in r._LimitSets:
                 r._LimitSets.append(self)
diff --git a/CIM15/IEC61970/Meas/Limit.py b/CIM15/IEC61970/Meas/Limit.py
index df4b09c..5e1998e 100644
--- a/CIM15/IEC61970/Meas/Limit.py
+++ b/CIM15/IEC61970/Meas/Limit.py
@@ -48,7 +48,7 @@ class Limit(IdentifiedObject):
     def setProcedures(self, value):
         for p in self._Procedures:
             filtered = [q for q in p.Limits if q != self]
-            self._Procedures._Limits = filtered
+            p._Limits = filtered
         for r in value:
             if self not in r._Limits:
                 r._Limits.append(self)
diff --git a/CIM15/IEC61970/Meas/Measurement.py b/CIM15/IEC61970/Meas/Measurement.py
index 9870bfc..9f16d00 100644
--- a/CIM15/IEC61970/Meas/Measurement.py
+++ b/CIM15/IEC61970/Meas/Measurement.py
@@ -114,7 +114,7 @@ class Measurement(IdentifiedObject):
     def setLocations(self, value):
         for p in self._Locations:
             filtered = [q for q in p.Measurements if q != self]
-            self._Locations._Measurements = filtered
+            p._Measurements = filtered
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
@@ -158,7 +158,7 @@ class Measurement(IdentifiedObject):
     def setDocuments(self, value):
         for p in self._Documents:
             filtered = [q for q in p.Measurements if q != self]
-            self._Documents._Measurements = filtered
+            p._Measurements = filtered
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
diff --git a/CIM15/IEC61970/Meas/MeasurementValue.py b/CIM15/IEC61970/Meas/MeasurementValue.py
index bba217b..b4d8c69 100644
--- a/CIM15/IEC61970/Meas/MeasurementValue.py
+++ b/CIM15/IEC61970/Meas/MeasurementValue.py
@@ -112,7 +112,7 @@ class MeasurementValue(IdentifiedObject):
     def setProcedureDataSets(self, value):
         for p in self._ProcedureDataSets:
             filtered = [q for q in p.MeasurementValues if q != self]
-            self._ProcedureDataSets._MeasurementValues = filtered
+            p._MeasurementValues = filtered
         for r in value:
             if self not in r._MeasurementValues:
                 r._MeasurementValues.append(self)
diff --git a/CIM15/IEC61970/Outage/SwitchingOperation.py b/CIM15/IEC61970/Outage/SwitchingOperation.py
index b3f5685..c8e8172 100644
--- a/CIM15/IEC61970/Outage/SwitchingOperation.py
+++ b/CIM15/IEC61970/Outage/SwitchingOperation.py
@@ -78,7 +78,7 @@ class SwitchingOperation(IdentifiedObject):
     def setSwitches(self, value):
         for p in self._Switches:
             filtered = [q for q in p.SwitchingOperations if q != self]
-            self._Switches._SwitchingOperations = filtered
+            p._SwitchingOperations = filtered
         for r in value:
             if self not in r._SwitchingOperations:
                 r._SwitchingOperations.append(self)
diff --git a/CIM15/IEC61970/Protection/ProtectionEquipment.py b/CIM15/IEC61970/Protection/ProtectionEquipment.py
index 6a28ad3..17c2973 100644
--- a/CIM15/IEC61970/Protection/ProtectionEquipment.py
+++ b/CIM15/IEC61970/Protection/ProtectionEquipment.py
@@ -77,7 +77,7 @@ class ProtectionEquipment(Equipment):
     def setConductingEquipments(self, value):
         for p in self._ConductingEquipments:
             filtered = [q for q in p.ProtectionEquipments if q != self]
-            self._ConductingEquipments._ProtectionEquipments = filtered
+            p._ProtectionEquipments = filtered
         for r in value:
             if self not in r._ProtectionEquipments:
                 r._ProtectionEquipments.append(self)
@@ -105,7 +105,7 @@ class ProtectionEquipment(Equipment):
     def setProtectedSwitches(self, value):
         for p in self._ProtectedSwitches:
             filtered = [q for q in p.ProtectionEquipments if q != self]
-            self._ProtectedSwitches._ProtectionEquipments = filtered
+            p._ProtectionEquipments = filtered
         for r in value:
             if self not in r._ProtectionEquipments:
                 r._ProtectionEquipments.append(self)
diff --git a/CIM15/IEC61970/SCADA/CommunicationLink.py b/CIM15/IEC61970/SCADA/CommunicationLink.py
index 7c3d6ee..ba56259 100644
--- a/CIM15/IEC61970/SCADA/CommunicationLink.py
+++ b/CIM15/IEC61970/SCADA/CommunicationLink.py
@@ -49,7 +49,7 @@ class CommunicationLink(PowerSystemResource):
     def setRemoteUnits(self, value):
         for p in self._RemoteUnits:
             filtered = [q for q in p.CommunicationLinks if q != self]
-            self._RemoteUnits._CommunicationLinks = filtered
+            p._CommunicationLinks = filtered
         for r in value:
             if self not in r._CommunicationLinks:
                 r._CommunicationLinks.append(self)
diff --git a/CIM15/IEC61970/SCADA/RemoteUnit.py b/CIM15/IEC61970/SCADA/RemoteUnit.py
index 1bf2e5f..95dfefb 100644
--- a/CIM15/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM15/IEC61970/SCADA/RemoteUnit.py
@@ -78,7 +78,7 @@ class RemoteUnit(PowerSystemResource):
     def setCommunicationLinks(self, value):
         for p in self._CommunicationLinks:
             filtered = [q for q in p.RemoteUnits if q != self]
-            self._CommunicationLinks._RemoteUnits = filtered
+            p._RemoteUnits = filtered
         for r in value:
             if self not in r._RemoteUnits:
                 r._RemoteUnits.append(self)
diff --git a/CIM15/IEC61970/Wires/ACLineSegment.py b/CIM15/IEC61970/Wires/ACLineSegment.py
index c9770fe..f872f6e 100644
--- a/CIM15/IEC61970/Wires/ACLineSegment.py
+++ b/CIM15/IEC61970/Wires/ACLineSegment.py
@@ -257,7 +257,7 @@ class ACLineSegment(Conductor):
     def setCurrentTemperatureCurves(self, value):
         for p in self._CurrentTemperatureCurves:
             filtered = [q for q in p.ACLineSegments if q != self]
-            self._CurrentTemperatureCurves._ACLineSegments = filtered
+            p._ACLineSegments = filtered
         for r in value:
             if self not in r._ACLineSegments:
                 r._ACLineSegments.append(self)
diff --git a/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py b/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
index 198e663..524f6b6 100644
--- a/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
+++ b/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
@@ -46,7 +46,7 @@ class CurrentTemperatureCurve(Curve):
     def setACLineSegments(self, value):
         for p in self._ACLineSegments:
             filtered = [q for q in p.CurrentTemperatureCurves if q != self]
-            self._ACLineSegments._CurrentTemperatureCurves = filtered
+            p._CurrentTemperatureCurves = filtered
         for r in value:
             if self not in r._CurrentTemperatureCurves:
                 r._CurrentTemperatureCurves.append(self)
diff --git a/CIM15/IEC61970/Wires/ProtectedSwitch.py b/CIM15/IEC61970/Wires/ProtectedSwitch.py
index a8dcde1..9614a0a 100644
--- a/CIM15/IEC61970/Wires/ProtectedSwitch.py
+++ b/CIM15/IEC61970/Wires/ProtectedSwitch.py
@@ -57,7 +57,7 @@ class ProtectedSwitch(Switch):
     def setProtectionEquipments(self, value):
         for p in self._ProtectionEquipments:
             filtered = [q for q in p.ProtectedSwitches if q != self]
-            self._ProtectionEquipments._ProtectedSwitches = filtered
+            p._ProtectedSwitches = filtered
         for r in value:
             if self not in r._ProtectedSwitches:
                 r._ProtectedSwitches.append(self)
diff --git a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
index 8050f36..7625280 100644
--- a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -82,7 +82,7 @@ class ReactiveCapabilityCurve(Curve):
     def setSynchronousMachines(self, value):
         for p in self._SynchronousMachines:
             filtered = [q for q in p.ReactiveCapabilityCurves if q != self]
-            self._SynchronousMachines._ReactiveCapabilityCurves = filtered
+            p._ReactiveCapabilityCurves = filtered
         for r in value:
             if self not in r._ReactiveCapabilityCurves:
                 r._ReactiveCapabilityCurves.append(self)
diff --git a/CIM15/IEC61970/Wires/Switch.py b/CIM15/IEC61970/Wires/Switch.py
index 28a73d3..531e694 100644
--- a/CIM15/IEC61970/Wires/Switch.py
+++ b/CIM15/IEC61970/Wires/Switch.py
@@ -89,7 +89,7 @@ class Switch(ConductingEquipment):
     def setSwitchingOperations(self, value):
         for p in self._SwitchingOperations:
             filtered = [q for q in p.Switches if q != self]
-            self._SwitchingOperations._Switches = filtered
+            p._Switches = filtered
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
@@ -116,7 +116,7 @@ class Switch(ConductingEquipment):
     def setLoadMgmtFunctions(self, value):
         for p in self._LoadMgmtFunctions:
             filtered = [q for q in p.Switches if q != self]
-            self._LoadMgmtFunctions._Switches = filtered
+            p._Switches = filtered
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
@@ -143,7 +143,7 @@ class Switch(ConductingEquipment):
     def setConnectDisconnectFunctions(self, value):
         for p in self._ConnectDisconnectFunctions:
             filtered = [q for q in p.Switches if q != self]
-            self._ConnectDisconnectFunctions._Switches = filtered
+            p._Switches = filtered
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
diff --git a/CIM15/IEC61970/Wires/SynchronousMachine.py b/CIM15/IEC61970/Wires/SynchronousMachine.py
index a059a7f..9d50cd4 100644
--- a/CIM15/IEC61970/Wires/SynchronousMachine.py
+++ b/CIM15/IEC61970/Wires/SynchronousMachine.py
@@ -185,7 +185,7 @@ class SynchronousMachine(RegulatingCondEq):
     def setPrimeMovers(self, value):
         for p in self._PrimeMovers:
             filtered = [q for q in p.SynchronousMachines if q != self]
-            self._PrimeMovers._SynchronousMachines = filtered
+            p._SynchronousMachines = filtered
         for r in value:
             if self not in r._SynchronousMachines:
                 r._SynchronousMachines.append(self)
@@ -230,7 +230,7 @@ class SynchronousMachine(RegulatingCondEq):
     def setReactiveCapabilityCurves(self, value):
         for p in self._ReactiveCapabilityCurves:
             filtered = [q for q in p.SynchronousMachines if q != self]
-            self._ReactiveCapabilityCurves._SynchronousMachines = filtered
+            p._SynchronousMachines = filtered
         for r in value:
             if self not in r._SynchronousMachines:
                 r._SynchronousMachines.append(self)
diff --git a/CIM15/IEC61970/Wires/TransformerEnd.py b/CIM15/IEC61970/Wires/TransformerEnd.py
index aacb102..29a7939 100644
--- a/CIM15/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/IEC61970/Wires/TransformerEnd.py
@@ -275,7 +275,7 @@ class TransformerEnd(IdentifiedObject):
     def setToMeshImpedance(self, value):
         for p in self._ToMeshImpedance:
             filtered = [q for q in p.ToTransformerEnd if q != self]
-            self._ToMeshImpedance._ToTransformerEnd = filtered
+            p._ToTransformerEnd = filtered
         for r in value:
             if self not in r._ToTransformerEnd:
                 r._ToTransformerEnd.append(self)
diff --git a/CIM15/IEC61970/Wires/TransformerMeshImpedance.py b/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
index 6949792..91eab0c 100644
--- a/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
+++ b/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
@@ -94,7 +94,7 @@ class TransformerMeshImpedance(IdentifiedObject):
     def setToTransformerEnd(self, value):
         for p in self._ToTransformerEnd:
             filtered = [q for q in p.ToMeshImpedance if q != self]
-            self._ToTransformerEnd._ToMeshImpedance = filtered
+            p._ToMeshImpedance = filtered
         for r in value:
             if self not in r._ToMeshImpedance:
                 r._ToMeshImpedance.append(self)
@@ -122,7 +122,7 @@ class TransformerMeshImpedance(IdentifiedObject):
     def setToTransformerEndInfo(self, value):
         for p in self._ToTransformerEndInfo:
             filtered = [q for q in p.ToMeshImpedance if q != self]
-            self._ToTransformerEndInfo._ToMeshImpedance = filtered
+            p._ToMeshImpedance = filtered
         for r in value:
             if self not in r._ToMeshImpedance:
                 r._ToMeshImpedance.append(self)
diff --git a/CIM15/IEC62325/MarketParticipant.py b/CIM15/IEC62325/MarketParticipant.py
index 5daecd4..9b69ce8 100644
--- a/CIM15/IEC62325/MarketParticipant.py
+++ b/CIM15/IEC62325/MarketParticipant.py
@@ -47,7 +47,7 @@ class MarketParticipant(Organisation):
     def setMarketRoles(self, value):
         for p in self._MarketRoles:
             filtered = [q for q in p.MarketParticipants if q != self]
-            self._MarketRoles._MarketParticipants = filtered
+            p._MarketParticipants = filtered
         for r in value:
             if self not in r._MarketParticipants:
                 r._MarketParticipants.append(self)
diff --git a/CIM15/IEC62325/MarketRole.py b/CIM15/IEC62325/MarketRole.py
index 3d09c69..52d5dd1 100644
--- a/CIM15/IEC62325/MarketRole.py
+++ b/CIM15/IEC62325/MarketRole.py
@@ -58,7 +58,7 @@ class MarketRole(IdentifiedObject):
     def setMarketParticipants(self, value):
         for p in self._MarketParticipants:
             filtered = [q for q in p.MarketRoles if q != self]
-            self._MarketParticipants._MarketRoles = filtered
+            p._MarketRoles = filtered
         for r in value:
             if self not in r._MarketRoles:
                 r._MarketRoles.append(self)
-- 
2.43.0


From 5930c4161e62441ade92ccb232101bfa849940fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:48 +0000
Subject: [PATCH 03/29] fix: do not list the same n:m partner twice

Adding an object already linked (e.g. both directions present in a file)
appended it a second time to one side only.
---
 .../IEC61968/AssetModels/OpenCircuitTest.py   |  3 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  3 ++-
 .../IEC61968/AssetModels/ToWindingSpec.py     |  6 +++--
 .../IEC61968/AssetModels/OpenCircuitTest.py   |  3 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  3 ++-
 .../IEC61968/AssetModels/ToWindingSpec.py     |  6 +++--
 .../IEC61968/AssetModels/OpenCircuitTest.py   |  3 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  3 ++-
 .../IEC61968/AssetModels/ToWindingSpec.py     |  6 +++--
 .../Dynamics/IEC61968/Assets/AssetsAsset.py   |  3 ++-
 .../Customers/CustomersCustomerAgreement.py   |  3 ++-
 .../IEC61970/Core/CoreConductingEquipment.py  |  3 ++-
 .../Dynamics/IEC61970/Core/CoreEquipment.py   |  3 ++-
 .../IEC61970/Core/CorePowerSystemResource.py  |  9 ++++---
 .../Dynamics/IEC61970/Core/CorePsrList.py     |  3 ++-
 .../IEC61970/Core/CoreReportingGroup.py       |  3 ++-
 .../ProtectionProtectionEquipment.py          |  3 ++-
 CIM14/IEC61968/AssetModels/OpenCircuitTest.py |  3 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  3 ++-
 CIM14/IEC61968/AssetModels/ToWindingSpec.py   |  6 +++--
 CIM14/IEC61968/Assets/Asset.py                | 12 ++++++---
 CIM14/IEC61968/Common/ActivityRecord.py       |  6 +++--
 CIM14/IEC61968/Common/Document.py             |  6 +++--
 CIM14/IEC61968/Common/Location.py             |  3 ++-
 CIM14/IEC61968/Common/UserAttribute.py        |  6 +++--
 CIM14/IEC61968/Customers/Customer.py          |  3 ++-
 CIM14/IEC61968/Customers/CustomerAgreement.py |  9 ++++---
 CIM14/IEC61968/Customers/PricingStructure.py  |  9 ++++---
 CIM14/IEC61968/Customers/ServiceLocation.py   |  3 ++-
 CIM14/IEC61968/Customers/Tariff.py            |  6 +++--
 .../LoadControl/ConnectDisconnectFunction.py  |  3 ++-
 CIM14/IEC61968/Metering/EndDeviceAsset.py     |  3 ++-
 CIM14/IEC61968/Metering/EndDeviceGroup.py     |  3 ++-
 CIM14/IEC61968/Metering/IntervalBlock.py      |  3 ++-
 CIM14/IEC61968/Metering/IntervalReading.py    |  3 ++-
 CIM14/IEC61968/Metering/MeterReading.py       |  3 ++-
 CIM14/IEC61968/Metering/Reading.py            |  3 ++-
 CIM14/IEC61968/Metering/SDPLocation.py        |  3 ++-
 .../IEC61968/Metering/ServiceDeliveryPoint.py |  6 +++--
 .../PaymentMetering/AuxiliaryAccount.py       |  3 ++-
 CIM14/IEC61968/PaymentMetering/Charge.py      |  9 ++++---
 .../ConsumptionTariffInterval.py              |  6 +++--
 .../PaymentMetering/MerchantAccount.py        |  3 ++-
 .../IEC61968/PaymentMetering/TariffProfile.py |  9 ++++---
 .../PaymentMetering/TimeTariffInterval.py     |  6 +++--
 CIM14/IEC61968/PaymentMetering/Transactor.py  |  3 ++-
 CIM14/IEC61968/Work/Work.py                   |  3 ++-
 CIM14/IEC61970/Core/ConductingEquipment.py    |  3 ++-
 CIM14/IEC61970/Core/Equipment.py              |  3 ++-
 CIM14/IEC61970/Core/PowerSystemResource.py    |  9 ++++---
 CIM14/IEC61970/Core/PsrList.py                |  3 ++-
 CIM14/IEC61970/Core/ReportingGroup.py         |  3 ++-
 .../IEC61970/Dynamics/BlockOutputReference.py |  3 ++-
 CIM14/IEC61970/Dynamics/CompositeModel.py     |  3 ++-
 .../IEC61970/Dynamics/Generators/GenEquiv.py  |  3 ++-
 CIM14/IEC61970/Dynamics/Generators/GenLoad.py |  3 ++-
 .../IEC61970/Dynamics/Loads/AggregateLoad.py  |  3 ++-
 CIM14/IEC61970/Dynamics/MetaBlockReference.py |  3 ++-
 CIM14/IEC61970/Dynamics/MetaBlockSignal.py    |  6 +++--
 .../Dynamics/Motors/MechanicalLoad.py         |  3 ++-
 CIM14/IEC61970/Dynamics/RotatingMachine.py    |  3 ++-
 CIM14/IEC61970/Dynamics/SlotReference.py      |  3 ++-
 .../Dynamics/TurbineGovernors/GovHydro1.py    |  3 ++-
 .../GenerationDynamics/PrimeMover.py          |  3 ++-
 .../GenerationDynamics/SteamSupply.py         |  3 ++-
 .../GenerationDynamics/SteamTurbine.py        |  3 ++-
 CIM14/IEC61970/Meas/Accumulator.py            |  3 ++-
 CIM14/IEC61970/Meas/AccumulatorLimitSet.py    |  3 ++-
 CIM14/IEC61970/Meas/Analog.py                 |  3 ++-
 CIM14/IEC61970/Meas/AnalogLimitSet.py         |  3 ++-
 CIM14/IEC61970/Meas/Measurement.py            |  6 +++--
 CIM14/IEC61970/Outage/SwitchingOperation.py   |  3 ++-
 .../Protection/ProtectionEquipment.py         |  3 ++-
 CIM14/IEC61970/SCADA/CommunicationLink.py     |  3 ++-
 CIM14/IEC61970/SCADA/RemoteUnit.py            |  3 ++-
 CIM14/IEC61970/Wires/EnergyConsumer.py        |  3 ++-
 .../IEC61970/Wires/ReactiveCapabilityCurve.py |  3 ++-
 CIM14/IEC61970/Wires/Switch.py                |  6 +++--
 CIM14/IEC61970/Wires/SynchronousMachine.py    | 15 +++++++----
 .../Balanced/IEC61970/Wires/TransformerEnd.py |  3 ++-
 .../Wires/TransformerMeshImpedance.py         |  3 ++-
 .../IEC61968/AssetModels/ShortCircuitTest.py  |  3 ++-
 .../AssetModels/TransformerEndInfo.py         |  6 +++--
 CIM15/IEC61968/Assets/Asset.py                | 27 ++++++++++++-------
 CIM15/IEC61968/Assets/AssetContainer.py       |  3 ++-
 CIM15/IEC61968/Common/ActivityRecord.py       | 12 ++++++---
 CIM15/IEC61968/Common/CoordinateSystem.py     |  3 ++-
 CIM15/IEC61968/Common/Document.py             | 15 +++++++----
 CIM15/IEC61968/Common/Location.py             | 21 ++++++++++-----
 CIM15/IEC61968/Common/Organisation.py         |  3 ++-
 CIM15/IEC61968/Common/UserAttribute.py        | 15 +++++++----
 CIM15/IEC61968/Customers/Customer.py          |  6 +++--
 CIM15/IEC61968/Customers/CustomerAgreement.py |  9 ++++---
 CIM15/IEC61968/Customers/PricingStructure.py  |  9 ++++---
 CIM15/IEC61968/Customers/ServiceLocation.py   |  3 ++-
 CIM15/IEC61968/Customers/Tariff.py            |  6 +++--
 .../LoadControl/ConnectDisconnectFunction.py  |  3 ++-
 CIM15/IEC61968/Metering/EndDevice.py          |  3 ++-
 CIM15/IEC61968/Metering/EndDeviceGroup.py     |  3 ++-
 CIM15/IEC61968/Metering/IntervalBlock.py      |  3 ++-
 CIM15/IEC61968/Metering/IntervalReading.py    |  3 ++-
 CIM15/IEC61968/Metering/MeterReading.py       |  3 ++-
 CIM15/IEC61968/Metering/Reading.py            |  3 ++-
 CIM15/IEC61968/Metering/SDPLocation.py        |  3 ++-
 .../IEC61968/Metering/ServiceDeliveryPoint.py |  6 +++--
 .../PaymentMetering/AuxiliaryAccount.py       |  3 ++-
 CIM15/IEC61968/PaymentMetering/Charge.py      |  9 ++++---
 .../ConsumptionTariffInterval.py              |  9 ++++---
 .../PaymentMetering/MerchantAccount.py        |  3 ++-
 .../IEC61968/PaymentMetering/TariffProfile.py |  9 ++++---
 .../PaymentMetering/TimeTariffInterval.py     |  9 ++++---
 CIM15/IEC61968/PaymentMetering/Transactor.py  |  3 ++-
 CIM15/IEC61968/Work/Work.py                   |  6 +++--
 CIM15/IEC61970/Core/ConductingEquipment.py    |  3 ++-
 CIM15/IEC61970/Core/Equipment.py              |  3 ++-
 CIM15/IEC61970/Core/PowerSystemResource.py    | 15 +++++++----
 CIM15/IEC61970/Core/PsrList.py                |  3 ++-
 CIM15/IEC61970/Core/ReportingGroup.py         |  3 ++-
 .../GenerationDynamics/PrimeMover.py          |  3 ++-
 .../GenerationDynamics/SteamSupply.py         |  3 ++-
 .../GenerationDynamics/SteamTurbine.py        |  3 ++-
 CIM15/IEC61970/Graphics/DiagramObject.py      |  3 ++-
 CIM15/IEC61970/Graphics/VisibilityLayer.py    |  3 ++-
 .../InfAssets/AssetPropertyCurve.py           |  3 ++-
 .../Informative/InfAssets/DimensionsInfo.py   |  3 ++-
 .../IEC61970/Informative/InfAssets/Medium.py  |  3 ++-
 .../InfAssets/MountingConnection.py           |  6 +++--
 .../Informative/InfAssets/MountingPoint.py    |  3 ++-
 .../Informative/InfAssets/PowerRating.py      |  3 ++-
 .../Informative/InfAssets/Procedure.py        |  6 +++--
 .../Informative/InfAssets/ProcedureDataSet.py |  9 ++++---
 .../Informative/InfAssets/ReliabilityInfo.py  |  3 ++-
 .../Informative/InfAssets/Specification.py    |  6 +++--
 .../Informative/InfAssets/Structure.py        |  3 ++-
 .../Informative/InfAssets/TransformerAsset.py |  3 ++-
 .../InfAssets/TransformerObservation.py       |  3 ++-
 .../Informative/InfCommon/BusinessRole.py     |  3 ++-
 CIM15/IEC61970/Informative/InfCommon/Craft.py |  9 ++++---
 .../InfCommon/ScheduleParameterInfo.py        |  3 ++-
 .../Informative/InfCommon/ScheduledEvent.py   |  3 ++-
 CIM15/IEC61970/Informative/InfCommon/Skill.py |  6 +++--
 .../InfCustomers/CustomerBillingInfo.py       |  3 ++-
 .../InfCustomers/WorkBillingInfo.py           |  3 ++-
 .../InfERPSupport/ErpInvoiceLineItem.py       | 12 ++++++---
 .../InfERPSupport/ErpJournalEntry.py          |  9 ++++---
 .../InfERPSupport/ErpLedgerEntry.py           |  3 ++-
 .../InfERPSupport/ErpOrganisation.py          |  9 ++++---
 .../Informative/InfERPSupport/ErpPayable.py   |  3 ++-
 .../InfERPSupport/ErpPayableLineItem.py       |  6 +++--
 .../Informative/InfERPSupport/ErpPayment.py   |  9 ++++---
 .../Informative/InfERPSupport/ErpPerson.py    | 18 ++++++++-----
 .../InfERPSupport/ErpRecDelvLineItem.py       |  6 +++--
 .../InfERPSupport/ErpRecLineItem.py           |  6 +++--
 .../Informative/InfGMLSupport/Diagram.py      |  6 +++--
 .../InfGMLSupport/GmlDiagramObject.py         | 12 ++++++---
 .../InfGMLSupport/GmlFeatureStyle.py          |  6 +++--
 .../InfGMLSupport/GmlFeatureType.py           |  3 ++-
 .../Informative/InfGMLSupport/GmlFill.py      |  6 +++--
 .../Informative/InfGMLSupport/GmlFont.py      |  3 ++-
 .../Informative/InfGMLSupport/GmlGraphic.py   |  3 ++-
 .../Informative/InfGMLSupport/GmlMark.py      |  9 ++++---
 .../InfGMLSupport/GmlObservation.py           |  3 ++-
 .../Informative/InfGMLSupport/GmlSelector.py  |  3 ++-
 .../Informative/InfGMLSupport/GmlStroke.py    |  6 +++--
 .../InfGMLSupport/GmlSvgParameter.py          |  9 ++++---
 .../Informative/InfGMLSupport/GmlSymbol.py    |  3 ++-
 .../InfLoadControl/LoadMgmtFunction.py        |  3 ++-
 .../Informative/InfLocations/Hazard.py        |  3 ++-
 .../Informative/InfLocations/LandProperty.py  | 12 ++++++---
 .../InfLocations/OrgPropertyRole.py           |  3 ++-
 .../Informative/InfLocations/RedLine.py       |  3 ++-
 .../Informative/InfLocations/RightOfWay.py    |  3 ++-
 .../Informative/InfLocations/Route.py         |  3 ++-
 .../Informative/InfOperations/CallBack.py     |  6 +++--
 .../Informative/InfOperations/ChangeSet.py    |  6 +++--
 .../Informative/InfOperations/Circuit.py      |  3 ++-
 .../InfOperations/CircuitSection.py           |  3 ++-
 .../Informative/InfOperations/IncidentCode.py |  3 ++-
 .../InfOperations/IncidentRecord.py           |  3 ++-
 .../InfOperations/NetworkDataSet.py           |  9 ++++---
 .../Informative/InfOperations/OutageCode.py   |  6 +++--
 .../InfOperations/OutageNotification.py       |  3 ++-
 .../Informative/InfOperations/OutageRecord.py |  3 ++-
 .../Informative/InfOperations/OutageStep.py   |  6 +++--
 .../InfOperations/SwitchingSchedule.py        |  3 ++-
 .../InfOperations/SwitchingStep.py            |  3 ++-
 .../InfOperations/TroubleTicket.py            |  3 ++-
 .../Informative/InfWork/Appointment.py        |  3 ++-
 .../Informative/InfWork/Assignment.py         |  3 ++-
 CIM15/IEC61970/Informative/InfWork/CUAsset.py |  3 ++-
 .../Informative/InfWork/CUContractorItem.py   |  3 ++-
 CIM15/IEC61970/Informative/InfWork/CUGroup.py |  9 ++++---
 .../Informative/InfWork/CULaborItem.py        |  6 +++--
 .../Informative/InfWork/CUMaterialItem.py     |  6 +++--
 .../InfWork/CUWorkEquipmentItem.py            |  3 ++-
 .../Informative/InfWork/Capability.py         |  6 +++--
 .../Informative/InfWork/CompatibleUnit.py     | 21 ++++++++++-----
 .../Informative/InfWork/ConditionFactor.py    |  9 ++++---
 .../Informative/InfWork/ContractorItem.py     |  3 ++-
 .../IEC61970/Informative/InfWork/CostType.py  |  3 ++-
 CIM15/IEC61970/Informative/InfWork/Crew.py    | 24 +++++++++++------
 CIM15/IEC61970/Informative/InfWork/Design.py  |  9 ++++---
 .../Informative/InfWork/DesignLocation.py     | 12 ++++++---
 .../Informative/InfWork/DesignLocationCU.py   | 15 +++++++----
 .../IEC61970/Informative/InfWork/LaborItem.py |  3 ++-
 .../Informative/InfWork/MaterialItem.py       |  3 ++-
 CIM15/IEC61970/Informative/InfWork/Project.py |  3 ++-
 .../Informative/InfWork/PropertyUnit.py       |  6 +++--
 .../InfWork/QualificationRequirement.py       | 12 ++++++---
 CIM15/IEC61970/Informative/InfWork/Request.py |  3 ++-
 .../Informative/InfWork/ShiftPattern.py       |  3 ++-
 .../Informative/InfWork/WorkCostDetail.py     |  6 +++--
 .../Informative/InfWork/WorkLocation.py       |  3 ++-
 .../IEC61970/Informative/InfWork/WorkTask.py  | 12 ++++++---
 CIM15/IEC61970/Meas/Accumulator.py            |  3 ++-
 CIM15/IEC61970/Meas/AccumulatorLimitSet.py    |  3 ++-
 CIM15/IEC61970/Meas/Analog.py                 |  3 ++-
 CIM15/IEC61970/Meas/AnalogLimitSet.py         |  3 ++-
 CIM15/IEC61970/Meas/Limit.py                  |  3 ++-
 CIM15/IEC61970/Meas/Measurement.py            |  6 +++--
 CIM15/IEC61970/Meas/MeasurementValue.py       |  3 ++-
 CIM15/IEC61970/Outage/SwitchingOperation.py   |  3 ++-
 .../Protection/ProtectionEquipment.py         |  6 +++--
 CIM15/IEC61970/SCADA/CommunicationLink.py     |  3 ++-
 CIM15/IEC61970/SCADA/RemoteUnit.py            |  3 ++-
 CIM15/IEC61970/Wires/ACLineSegment.py         |  3 ++-
 .../IEC61970/Wires/CurrentTemperatureCurve.py |  3 ++-
 CIM15/IEC61970/Wires/ProtectedSwitch.py       |  3 ++-
 .../IEC61970/Wires/ReactiveCapabilityCurve.py |  3 ++-
 CIM15/IEC61970/Wires/Switch.py                |  9 ++++---
 CIM15/IEC61970/Wires/SynchronousMachine.py    |  6 +++--
 CIM15/IEC61970/Wires/TransformerEnd.py        |  3 ++-
 .../Wires/TransformerMeshImpedance.py         |  6 +++--
 CIM15/IEC62325/MarketParticipant.py           |  3 ++-
 CIM15/IEC62325/MarketRole.py                  |  3 ++-
 235 files changed, 804 insertions(+), 402 deletions(-)

diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
index 7ecf290..6bc3520 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
@@ -77,7 +77,8 @@ class OpenCircuitTest(DistributionWindingTest):
         for obj in MeasuredWindingSpecs:
             if self not in obj._OpenCircuitTests:
                 obj._OpenCircuitTests.append(self)
-            self._MeasuredWindingSpecs.append(obj)
+            if obj not in self._MeasuredWindingSpecs:
+                self._MeasuredWindingSpecs.append(obj)
 
     def removeMeasuredWindingSpecs(self, *MeasuredWindingSpecs):
         for obj in MeasuredWindingSpecs:
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
index e1f36f8..9ba4adb 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
@@ -77,7 +77,8 @@ class ShortCircuitTest(DistributionWindingTest):
         for obj in ShortedWindingSpecs:
             if self not in obj._ShortCircuitTests:
                 obj._ShortCircuitTests.append(self)
-            self._ShortedWindingSpecs.append(obj)
+            if obj not in self._ShortedWindingSpecs:
+                self._ShortedWindingSpecs.append(obj)
 
     def removeShortedWindingSpecs(self, *ShortedWindingSpecs):
         for obj in ShortedWindingSpecs:
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
index acc2179..d7e0a74 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
@@ -81,7 +81,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in OpenCircuitTests:
             if self not in obj._MeasuredWindingSpecs:
                 obj._MeasuredWindingSpecs.append(self)
-            self._OpenCircuitTests.append(obj)
+            if obj not in self._OpenCircuitTests:
+                self._OpenCircuitTests.append(obj)
 
     def removeOpenCircuitTests(self, *OpenCircuitTests):
         for obj in OpenCircuitTests:
@@ -109,7 +110,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in ShortCircuitTests:
             if self not in obj._ShortedWindingSpecs:
                 obj._ShortedWindingSpecs.append(self)
-            self._ShortCircuitTests.append(obj)
+            if obj not in self._ShortCircuitTests:
+                self._ShortCircuitTests.append(obj)
 
     def removeShortCircuitTests(self, *ShortCircuitTests):
         for obj in ShortCircuitTests:
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
index 9a20bdc..90bd795 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
@@ -77,7 +77,8 @@ class OpenCircuitTest(DistributionWindingTest):
         for obj in MeasuredWindingSpecs:
             if self not in obj._OpenCircuitTests:
                 obj._OpenCircuitTests.append(self)
-            self._MeasuredWindingSpecs.append(obj)
+            if obj not in self._MeasuredWindingSpecs:
+                self._MeasuredWindingSpecs.append(obj)
 
     def removeMeasuredWindingSpecs(self, *MeasuredWindingSpecs):
         for obj in MeasuredWindingSpecs:
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
index 0d85081..149ceed 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
@@ -77,7 +77,8 @@ class ShortCircuitTest(DistributionWindingTest):
         for obj in ShortedWindingSpecs:
             if self not in obj._ShortCircuitTests:
                 obj._ShortCircuitTests.append(self)
-            self._ShortedWindingSpecs.append(obj)
+            if obj not in self._ShortedWindingSpecs:
+                self._ShortedWindingSpecs.append(obj)
 
     def removeShortedWindingSpecs(self, *ShortedWindingSpecs):
         for obj in ShortedWindingSpecs:
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
index 8af27b7..c23cec0 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
@@ -81,7 +81,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in OpenCircuitTests:
             if self not in obj._MeasuredWindingSpecs:
                 obj._MeasuredWindingSpecs.append(self)
-            self._OpenCircuitTests.append(obj)
+            if obj not in self._OpenCircuitTests:
+                self._OpenCircuitTests.append(obj)
 
     def removeOpenCircuitTests(self, *OpenCircuitTests):
         for obj in OpenCircuitTests:
@@ -109,7 +110,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in ShortCircuitTests:
             if self not in obj._ShortedWindingSpecs:
                 obj._ShortedWindingSpecs.append(self)
-            self._ShortCircuitTests.append(obj)
+            if obj not in self._ShortCircuitTests:
+                self._ShortCircuitTests.append(obj)
 
     def removeShortCircuitTests(self, *ShortCircuitTests):
         for obj in ShortCircuitTests:
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
index 0cb5a44..4562786 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
@@ -77,7 +77,8 @@ class OpenCircuitTest(DistributionWindingTest):
         for obj in MeasuredWindingSpecs:
             if self not in obj._OpenCircuitTests:
                 obj._OpenCircuitTests.append(self)
-            self._MeasuredWindingSpecs.append(obj)
+            if obj not in self._MeasuredWindingSpecs:
+                self._MeasuredWindingSpecs.append(obj)
 
     def removeMeasuredWindingSpecs(self, *MeasuredWindingSpecs):
         for obj in MeasuredWindingSpecs:
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
index ef87bf6..3f29207 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
@@ -77,7 +77,8 @@ class ShortCircuitTest(DistributionWindingTest):
         for obj in ShortedWindingSpecs:
             if self not in obj._ShortCircuitTests:
                 obj._ShortCircuitTests.append(self)
-            self._ShortedWindingSpecs.append(obj)
+            if obj not in self._ShortedWindingSpecs:
+                self._ShortedWindingSpecs.append(obj)
 
     def removeShortedWindingSpecs(self, *ShortedWindingSpecs):
         for obj in ShortedWindingSpecs:
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
index 3254ef9..c006420 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
@@ -81,7 +81,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in OpenCircuitTests:
             if self not in obj._MeasuredWindingSpecs:
                 obj._MeasuredWindingSpecs.append(self)
-            self._OpenCircuitTests.append(obj)
+            if obj not in self._OpenCircuitTests:
+                self._OpenCircuitTests.append(obj)
 
     def removeOpenCircuitTests(self, *OpenCircuitTests):
         for obj in OpenCircuitTests:
@@ -109,7 +110,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in ShortCircuitTests:
             if self not in obj._ShortedWindingSpecs:
                 obj._ShortedWindingSpecs.append(self)
-            self._ShortCircuitTests.append(obj)
+            if obj not in self._ShortCircuitTests:
+                self._ShortCircuitTests.append(obj)
 
     def removeShortCircuitTests(self, *ShortCircuitTests):
         for obj in ShortCircuitTests:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py b/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
index b66e3cb..631681f 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
@@ -59,7 +59,8 @@ class AssetsAsset(CoreIdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py b/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
index f046c26..486fb1f 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
@@ -59,7 +59,8 @@ class CustomersCustomerAgreement(CoreIdentifiedObject):
         for obj in Equipments:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._Equipments.append(obj)
+            if obj not in self._Equipments:
+                self._Equipments.append(obj)
 
     def removeEquipments(self, *Equipments):
         for obj in Equipments:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
index 81f8715..f883978 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
@@ -133,7 +133,8 @@ class CoreConductingEquipment(CoreEquipment):
         for obj in ProtectionEquipments:
             if self not in obj._ConductingEquipments:
                 obj._ConductingEquipments.append(self)
-            self._ProtectionEquipments.append(obj)
+            if obj not in self._ProtectionEquipments:
+                self._ProtectionEquipments.append(obj)
 
     def removeProtectionEquipments(self, *ProtectionEquipments):
         for obj in ProtectionEquipments:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
index 5e46525..571303c 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
@@ -114,7 +114,8 @@ class CoreEquipment(CorePowerSystemResource):
         for obj in CustomerAgreements:
             if self not in obj._Equipments:
                 obj._Equipments.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
index ac379be..92d2e33 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
@@ -126,7 +126,8 @@ class CorePowerSystemResource(CoreIdentifiedObject):
         for obj in ReportingGroup:
             if self not in obj._PowerSystemResource:
                 obj._PowerSystemResource.append(self)
-            self._ReportingGroup.append(obj)
+            if obj not in self._ReportingGroup:
+                self._ReportingGroup.append(obj)
 
     def removeReportingGroup(self, *ReportingGroup):
         for obj in ReportingGroup:
@@ -153,7 +154,8 @@ class CorePowerSystemResource(CoreIdentifiedObject):
         for obj in PsrLists:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._PsrLists.append(obj)
+            if obj not in self._PsrLists:
+                self._PsrLists.append(obj)
 
     def removePsrLists(self, *PsrLists):
         for obj in PsrLists:
@@ -235,7 +237,8 @@ class CorePowerSystemResource(CoreIdentifiedObject):
         for obj in Assets:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
index e7b3da2..4614e3f 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
@@ -59,7 +59,8 @@ class CorePsrList(CoreIdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._PsrLists:
                 obj._PsrLists.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
index ba8478e..c421302 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
@@ -59,7 +59,8 @@ class CoreReportingGroup(CoreIdentifiedObject):
         for obj in PowerSystemResource:
             if self not in obj._ReportingGroup:
                 obj._ReportingGroup.append(self)
-            self._PowerSystemResource.append(obj)
+            if obj not in self._PowerSystemResource:
+                self._PowerSystemResource.append(obj)
 
     def removePowerSystemResource(self, *PowerSystemResource):
         for obj in PowerSystemResource:
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
index 40d816f..841a9a2 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
@@ -59,7 +59,8 @@ class ProtectionProtectionEquipment(CoreEquipment):
         for obj in ConductingEquipments:
             if self not in obj._ProtectionEquipments:
                 obj._ProtectionEquipments.append(self)
-            self._ConductingEquipments.append(obj)
+            if obj not in self._ConductingEquipments:
+                self._ConductingEquipments.append(obj)
 
     def removeConductingEquipments(self, *ConductingEquipments):
         for obj in ConductingEquipments:
diff --git a/CIM14/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
index c7d687d..7ec517e 100644
--- a/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
@@ -77,7 +77,8 @@ class OpenCircuitTest(DistributionWindingTest):
         for obj in MeasuredWindingSpecs:
             if self not in obj._OpenCircuitTests:
                 obj._OpenCircuitTests.append(self)
-            self._MeasuredWindingSpecs.append(obj)
+            if obj not in self._MeasuredWindingSpecs:
+                self._MeasuredWindingSpecs.append(obj)
 
     def removeMeasuredWindingSpecs(self, *MeasuredWindingSpecs):
         for obj in MeasuredWindingSpecs:
diff --git a/CIM14/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
index dfa3c00..1ad771e 100644
--- a/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
@@ -77,7 +77,8 @@ class ShortCircuitTest(DistributionWindingTest):
         for obj in ShortedWindingSpecs:
             if self not in obj._ShortCircuitTests:
                 obj._ShortCircuitTests.append(self)
-            self._ShortedWindingSpecs.append(obj)
+            if obj not in self._ShortedWindingSpecs:
+                self._ShortedWindingSpecs.append(obj)
 
     def removeShortedWindingSpecs(self, *ShortedWindingSpecs):
         for obj in ShortedWindingSpecs:
diff --git a/CIM14/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/IEC61968/AssetModels/ToWindingSpec.py
index 2458f2d..2d89768 100644
--- a/CIM14/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/IEC61968/AssetModels/ToWindingSpec.py
@@ -98,7 +98,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in OpenCircuitTests:
             if self not in obj._MeasuredWindingSpecs:
                 obj._MeasuredWindingSpecs.append(self)
-            self._OpenCircuitTests.append(obj)
+            if obj not in self._OpenCircuitTests:
+                self._OpenCircuitTests.append(obj)
 
     def removeOpenCircuitTests(self, *OpenCircuitTests):
         for obj in OpenCircuitTests:
@@ -126,7 +127,8 @@ class ToWindingSpec(IdentifiedObject):
         for obj in ShortCircuitTests:
             if self not in obj._ShortedWindingSpecs:
                 obj._ShortedWindingSpecs.append(self)
-            self._ShortCircuitTests.append(obj)
+            if obj not in self._ShortCircuitTests:
+                self._ShortCircuitTests.append(obj)
 
     def removeShortCircuitTests(self, *ShortCircuitTests):
         for obj in ShortCircuitTests:
diff --git a/CIM14/IEC61968/Assets/Asset.py b/CIM14/IEC61968/Assets/Asset.py
index 280cfcd..a3670f0 100644
--- a/CIM14/IEC61968/Assets/Asset.py
+++ b/CIM14/IEC61968/Assets/Asset.py
@@ -146,7 +146,8 @@ class Asset(IdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
@@ -174,7 +175,8 @@ class Asset(IdentifiedObject):
         for obj in Properties:
             if self not in obj._PropertyAssets:
                 obj._PropertyAssets.append(self)
-            self._Properties.append(obj)
+            if obj not in self._Properties:
+                self._Properties.append(obj)
 
     def removeProperties(self, *Properties):
         for obj in Properties:
@@ -205,7 +207,8 @@ class Asset(IdentifiedObject):
         for obj in ActivityRecords:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._ActivityRecords.append(obj)
+            if obj not in self._ActivityRecords:
+                self._ActivityRecords.append(obj)
 
     def removeActivityRecords(self, *ActivityRecords):
         for obj in ActivityRecords:
@@ -309,7 +312,8 @@ class Asset(IdentifiedObject):
         for obj in Ratings:
             if self not in obj._RatingAssets:
                 obj._RatingAssets.append(self)
-            self._Ratings.append(obj)
+            if obj not in self._Ratings:
+                self._Ratings.append(obj)
 
     def removeRatings(self, *Ratings):
         for obj in Ratings:
diff --git a/CIM14/IEC61968/Common/ActivityRecord.py b/CIM14/IEC61968/Common/ActivityRecord.py
index 59ff339..86c6900 100644
--- a/CIM14/IEC61968/Common/ActivityRecord.py
+++ b/CIM14/IEC61968/Common/ActivityRecord.py
@@ -84,7 +84,8 @@ class ActivityRecord(IdentifiedObject):
         for obj in Documents:
             if self not in obj._ActivityRecords:
                 obj._ActivityRecords.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
@@ -112,7 +113,8 @@ class ActivityRecord(IdentifiedObject):
         for obj in Assets:
             if self not in obj._ActivityRecords:
                 obj._ActivityRecords.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM14/IEC61968/Common/Document.py b/CIM14/IEC61968/Common/Document.py
index ffad791..ac4fc7e 100644
--- a/CIM14/IEC61968/Common/Document.py
+++ b/CIM14/IEC61968/Common/Document.py
@@ -104,7 +104,8 @@ class Document(IdentifiedObject):
         for obj in ActivityRecords:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._ActivityRecords.append(obj)
+            if obj not in self._ActivityRecords:
+                self._ActivityRecords.append(obj)
 
     def removeActivityRecords(self, *ActivityRecords):
         for obj in ActivityRecords:
@@ -135,7 +136,8 @@ class Document(IdentifiedObject):
         for obj in Measurements:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
diff --git a/CIM14/IEC61968/Common/Location.py b/CIM14/IEC61968/Common/Location.py
index 854a692..98ae922 100644
--- a/CIM14/IEC61968/Common/Location.py
+++ b/CIM14/IEC61968/Common/Location.py
@@ -173,7 +173,8 @@ class Location(IdentifiedObject):
         for obj in Measurements:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
diff --git a/CIM14/IEC61968/Common/UserAttribute.py b/CIM14/IEC61968/Common/UserAttribute.py
index 6f65e73..01cf606 100644
--- a/CIM14/IEC61968/Common/UserAttribute.py
+++ b/CIM14/IEC61968/Common/UserAttribute.py
@@ -80,7 +80,8 @@ class UserAttribute(Element):
         for obj in PropertyAssets:
             if self not in obj._Properties:
                 obj._Properties.append(self)
-            self._PropertyAssets.append(obj)
+            if obj not in self._PropertyAssets:
+                self._PropertyAssets.append(obj)
 
     def removePropertyAssets(self, *PropertyAssets):
         for obj in PropertyAssets:
@@ -124,7 +125,8 @@ class UserAttribute(Element):
         for obj in RatingAssets:
             if self not in obj._Ratings:
                 obj._Ratings.append(self)
-            self._RatingAssets.append(obj)
+            if obj not in self._RatingAssets:
+                self._RatingAssets.append(obj)
 
     def removeRatingAssets(self, *RatingAssets):
         for obj in RatingAssets:
diff --git a/CIM14/IEC61968/Customers/Customer.py b/CIM14/IEC61968/Customers/Customer.py
index e289854..f33a576 100644
--- a/CIM14/IEC61968/Customers/Customer.py
+++ b/CIM14/IEC61968/Customers/Customer.py
@@ -91,7 +91,8 @@ class Customer(Organisation):
         for obj in Works:
             if self not in obj._Customers:
                 obj._Customers.append(self)
-            self._Works.append(obj)
+            if obj not in self._Works:
+                self._Works.append(obj)
 
     def removeWorks(self, *Works):
         for obj in Works:
diff --git a/CIM14/IEC61968/Customers/CustomerAgreement.py b/CIM14/IEC61968/Customers/CustomerAgreement.py
index d8c8d9a..c29a3cc 100644
--- a/CIM14/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM14/IEC61968/Customers/CustomerAgreement.py
@@ -151,7 +151,8 @@ class CustomerAgreement(Agreement):
         for obj in PricingStructures:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._PricingStructures.append(obj)
+            if obj not in self._PricingStructures:
+                self._PricingStructures.append(obj)
 
     def removePricingStructures(self, *PricingStructures):
         for obj in PricingStructures:
@@ -179,7 +180,8 @@ class CustomerAgreement(Agreement):
         for obj in ServiceLocations:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._ServiceLocations.append(obj)
+            if obj not in self._ServiceLocations:
+                self._ServiceLocations.append(obj)
 
     def removeServiceLocations(self, *ServiceLocations):
         for obj in ServiceLocations:
@@ -340,7 +342,8 @@ class CustomerAgreement(Agreement):
         for obj in Equipments:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._Equipments.append(obj)
+            if obj not in self._Equipments:
+                self._Equipments.append(obj)
 
     def removeEquipments(self, *Equipments):
         for obj in Equipments:
diff --git a/CIM14/IEC61968/Customers/PricingStructure.py b/CIM14/IEC61968/Customers/PricingStructure.py
index c636841..ca2358f 100644
--- a/CIM14/IEC61968/Customers/PricingStructure.py
+++ b/CIM14/IEC61968/Customers/PricingStructure.py
@@ -122,7 +122,8 @@ class PricingStructure(Document):
         for obj in ServiceDeliveryPoints:
             if self not in obj._PricingStructures:
                 obj._PricingStructures.append(self)
-            self._ServiceDeliveryPoints.append(obj)
+            if obj not in self._ServiceDeliveryPoints:
+                self._ServiceDeliveryPoints.append(obj)
 
     def removeServiceDeliveryPoints(self, *ServiceDeliveryPoints):
         for obj in ServiceDeliveryPoints:
@@ -150,7 +151,8 @@ class PricingStructure(Document):
         for obj in CustomerAgreements:
             if self not in obj._PricingStructures:
                 obj._PricingStructures.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
@@ -195,7 +197,8 @@ class PricingStructure(Document):
         for obj in Tariffs:
             if self not in obj._PricingStructures:
                 obj._PricingStructures.append(self)
-            self._Tariffs.append(obj)
+            if obj not in self._Tariffs:
+                self._Tariffs.append(obj)
 
     def removeTariffs(self, *Tariffs):
         for obj in Tariffs:
diff --git a/CIM14/IEC61968/Customers/ServiceLocation.py b/CIM14/IEC61968/Customers/ServiceLocation.py
index f9688d5..a12bddd 100644
--- a/CIM14/IEC61968/Customers/ServiceLocation.py
+++ b/CIM14/IEC61968/Customers/ServiceLocation.py
@@ -102,7 +102,8 @@ class ServiceLocation(Location):
         for obj in CustomerAgreements:
             if self not in obj._ServiceLocations:
                 obj._ServiceLocations.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
diff --git a/CIM14/IEC61968/Customers/Tariff.py b/CIM14/IEC61968/Customers/Tariff.py
index 57bd5b1..9df0743 100644
--- a/CIM14/IEC61968/Customers/Tariff.py
+++ b/CIM14/IEC61968/Customers/Tariff.py
@@ -73,7 +73,8 @@ class Tariff(Document):
         for obj in TariffProfiles:
             if self not in obj._Tariffs:
                 obj._Tariffs.append(self)
-            self._TariffProfiles.append(obj)
+            if obj not in self._TariffProfiles:
+                self._TariffProfiles.append(obj)
 
     def removeTariffProfiles(self, *TariffProfiles):
         for obj in TariffProfiles:
@@ -101,7 +102,8 @@ class Tariff(Document):
         for obj in PricingStructures:
             if self not in obj._Tariffs:
                 obj._Tariffs.append(self)
-            self._PricingStructures.append(obj)
+            if obj not in self._PricingStructures:
+                self._PricingStructures.append(obj)
 
     def removePricingStructures(self, *PricingStructures):
         for obj in PricingStructures:
diff --git a/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py b/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
index cb9108a..02538a2 100644
--- a/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
+++ b/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
@@ -94,7 +94,8 @@ class ConnectDisconnectFunction(DeviceFunction):
         for obj in Switches:
             if self not in obj._ConnectDisconnectFunctions:
                 obj._ConnectDisconnectFunctions.append(self)
-            self._Switches.append(obj)
+            if obj not in self._Switches:
+                self._Switches.append(obj)
 
     def removeSwitches(self, *Switches):
         for obj in Switches:
diff --git a/CIM14/IEC61968/Metering/EndDeviceAsset.py b/CIM14/IEC61968/Metering/EndDeviceAsset.py
index 84adc59..138ea0b 100644
--- a/CIM14/IEC61968/Metering/EndDeviceAsset.py
+++ b/CIM14/IEC61968/Metering/EndDeviceAsset.py
@@ -145,7 +145,8 @@ class EndDeviceAsset(AssetContainer):
         for obj in EndDeviceGroups:
             if self not in obj._EndDeviceAssets:
                 obj._EndDeviceAssets.append(self)
-            self._EndDeviceGroups.append(obj)
+            if obj not in self._EndDeviceGroups:
+                self._EndDeviceGroups.append(obj)
 
     def removeEndDeviceGroups(self, *EndDeviceGroups):
         for obj in EndDeviceGroups:
diff --git a/CIM14/IEC61968/Metering/EndDeviceGroup.py b/CIM14/IEC61968/Metering/EndDeviceGroup.py
index 430b0b8..ecf957a 100644
--- a/CIM14/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM14/IEC61968/Metering/EndDeviceGroup.py
@@ -73,7 +73,8 @@ class EndDeviceGroup(IdentifiedObject):
         for obj in EndDeviceAssets:
             if self not in obj._EndDeviceGroups:
                 obj._EndDeviceGroups.append(self)
-            self._EndDeviceAssets.append(obj)
+            if obj not in self._EndDeviceAssets:
+                self._EndDeviceAssets.append(obj)
 
     def removeEndDeviceAssets(self, *EndDeviceAssets):
         for obj in EndDeviceAssets:
diff --git a/CIM14/IEC61968/Metering/IntervalBlock.py b/CIM14/IEC61968/Metering/IntervalBlock.py
index 1847fe2..ffa3e63 100644
--- a/CIM14/IEC61968/Metering/IntervalBlock.py
+++ b/CIM14/IEC61968/Metering/IntervalBlock.py
@@ -124,7 +124,8 @@ class IntervalBlock(Element):
         for obj in IntervalReadings:
             if self not in obj._IntervalBlocks:
                 obj._IntervalBlocks.append(self)
-            self._IntervalReadings.append(obj)
+            if obj not in self._IntervalReadings:
+                self._IntervalReadings.append(obj)
 
     def removeIntervalReadings(self, *IntervalReadings):
         for obj in IntervalReadings:
diff --git a/CIM14/IEC61968/Metering/IntervalReading.py b/CIM14/IEC61968/Metering/IntervalReading.py
index bdccbc3..e1d49ca 100644
--- a/CIM14/IEC61968/Metering/IntervalReading.py
+++ b/CIM14/IEC61968/Metering/IntervalReading.py
@@ -90,7 +90,8 @@ class IntervalReading(MeasurementValue):
         for obj in IntervalBlocks:
             if self not in obj._IntervalReadings:
                 obj._IntervalReadings.append(self)
-            self._IntervalBlocks.append(obj)
+            if obj not in self._IntervalBlocks:
+                self._IntervalBlocks.append(obj)
 
     def removeIntervalBlocks(self, *IntervalBlocks):
         for obj in IntervalBlocks:
diff --git a/CIM14/IEC61968/Metering/MeterReading.py b/CIM14/IEC61968/Metering/MeterReading.py
index 7e99bf5..292cf8f 100644
--- a/CIM14/IEC61968/Metering/MeterReading.py
+++ b/CIM14/IEC61968/Metering/MeterReading.py
@@ -160,7 +160,8 @@ class MeterReading(IdentifiedObject):
         for obj in Readings:
             if self not in obj._MeterReadings:
                 obj._MeterReadings.append(self)
-            self._Readings.append(obj)
+            if obj not in self._Readings:
+                self._Readings.append(obj)
 
     def removeReadings(self, *Readings):
         for obj in Readings:
diff --git a/CIM14/IEC61968/Metering/Reading.py b/CIM14/IEC61968/Metering/Reading.py
index 7860fb3..021511b 100644
--- a/CIM14/IEC61968/Metering/Reading.py
+++ b/CIM14/IEC61968/Metering/Reading.py
@@ -131,7 +131,8 @@ class Reading(MeasurementValue):
         for obj in MeterReadings:
             if self not in obj._Readings:
                 obj._Readings.append(self)
-            self._MeterReadings.append(obj)
+            if obj not in self._MeterReadings:
+                self._MeterReadings.append(obj)
 
     def removeMeterReadings(self, *MeterReadings):
         for obj in MeterReadings:
diff --git a/CIM14/IEC61968/Metering/SDPLocation.py b/CIM14/IEC61968/Metering/SDPLocation.py
index aa274f7..4d9920c 100644
--- a/CIM14/IEC61968/Metering/SDPLocation.py
+++ b/CIM14/IEC61968/Metering/SDPLocation.py
@@ -77,7 +77,8 @@ class SDPLocation(Location):
         for obj in ServiceDeliveryPoints:
             if self not in obj._SDPLocations:
                 obj._SDPLocations.append(self)
-            self._ServiceDeliveryPoints.append(obj)
+            if obj not in self._ServiceDeliveryPoints:
+                self._ServiceDeliveryPoints.append(obj)
 
     def removeServiceDeliveryPoints(self, *ServiceDeliveryPoints):
         for obj in ServiceDeliveryPoints:
diff --git a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
index 6b00ea9..b2aa43e 100644
--- a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -137,7 +137,8 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for obj in PricingStructures:
             if self not in obj._ServiceDeliveryPoints:
                 obj._ServiceDeliveryPoints.append(self)
-            self._PricingStructures.append(obj)
+            if obj not in self._PricingStructures:
+                self._PricingStructures.append(obj)
 
     def removePricingStructures(self, *PricingStructures):
         for obj in PricingStructures:
@@ -182,7 +183,8 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for obj in SDPLocations:
             if self not in obj._ServiceDeliveryPoints:
                 obj._ServiceDeliveryPoints.append(self)
-            self._SDPLocations.append(obj)
+            if obj not in self._SDPLocations:
+                self._SDPLocations.append(obj)
 
     def removeSDPLocations(self, *SDPLocations):
         for obj in SDPLocations:
diff --git a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
index 705800c..d419226 100644
--- a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -86,7 +86,8 @@ class AuxiliaryAccount(Document):
         for obj in Charges:
             if self not in obj._AuxiliaryAccounts:
                 obj._AuxiliaryAccounts.append(self)
-            self._Charges.append(obj)
+            if obj not in self._Charges:
+                self._Charges.append(obj)
 
     def removeCharges(self, *Charges):
         for obj in Charges:
diff --git a/CIM14/IEC61968/PaymentMetering/Charge.py b/CIM14/IEC61968/PaymentMetering/Charge.py
index f4492b6..e3f2015 100644
--- a/CIM14/IEC61968/PaymentMetering/Charge.py
+++ b/CIM14/IEC61968/PaymentMetering/Charge.py
@@ -88,7 +88,8 @@ class Charge(IdentifiedObject):
         for obj in AuxiliaryAccounts:
             if self not in obj._Charges:
                 obj._Charges.append(self)
-            self._AuxiliaryAccounts.append(obj)
+            if obj not in self._AuxiliaryAccounts:
+                self._AuxiliaryAccounts.append(obj)
 
     def removeAuxiliaryAccounts(self, *AuxiliaryAccounts):
         for obj in AuxiliaryAccounts:
@@ -156,7 +157,8 @@ class Charge(IdentifiedObject):
         for obj in ConsumptionTariffIntervals:
             if self not in obj._Charges:
                 obj._Charges.append(self)
-            self._ConsumptionTariffIntervals.append(obj)
+            if obj not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(obj)
 
     def removeConsumptionTariffIntervals(self, *ConsumptionTariffIntervals):
         for obj in ConsumptionTariffIntervals:
@@ -184,7 +186,8 @@ class Charge(IdentifiedObject):
         for obj in TimeTariffIntervals:
             if self not in obj._Charges:
                 obj._Charges.append(self)
-            self._TimeTariffIntervals.append(obj)
+            if obj not in self._TimeTariffIntervals:
+                self._TimeTariffIntervals.append(obj)
 
     def removeTimeTariffIntervals(self, *TimeTariffIntervals):
         for obj in TimeTariffIntervals:
diff --git a/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py b/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
index 87f3dc1..4113005 100644
--- a/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
+++ b/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
@@ -73,7 +73,8 @@ class ConsumptionTariffInterval(Element):
         for obj in TariffProfiles:
             if self not in obj._ConsumptionTariffIntervals:
                 obj._ConsumptionTariffIntervals.append(self)
-            self._TariffProfiles.append(obj)
+            if obj not in self._TariffProfiles:
+                self._TariffProfiles.append(obj)
 
     def removeTariffProfiles(self, *TariffProfiles):
         for obj in TariffProfiles:
@@ -101,7 +102,8 @@ class ConsumptionTariffInterval(Element):
         for obj in Charges:
             if self not in obj._ConsumptionTariffIntervals:
                 obj._ConsumptionTariffIntervals.append(self)
-            self._Charges.append(obj)
+            if obj not in self._Charges:
+                self._Charges.append(obj)
 
     def removeCharges(self, *Charges):
         for obj in Charges:
diff --git a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
index 7c70c37..641119e 100644
--- a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
@@ -140,7 +140,8 @@ class MerchantAccount(Document):
         for obj in Transactors:
             if self not in obj._MerchantAccounts:
                 obj._MerchantAccounts.append(self)
-            self._Transactors.append(obj)
+            if obj not in self._Transactors:
+                self._Transactors.append(obj)
 
     def removeTransactors(self, *Transactors):
         for obj in Transactors:
diff --git a/CIM14/IEC61968/PaymentMetering/TariffProfile.py b/CIM14/IEC61968/PaymentMetering/TariffProfile.py
index befec40..44dcc3e 100644
--- a/CIM14/IEC61968/PaymentMetering/TariffProfile.py
+++ b/CIM14/IEC61968/PaymentMetering/TariffProfile.py
@@ -73,7 +73,8 @@ class TariffProfile(Document):
         for obj in ConsumptionTariffIntervals:
             if self not in obj._TariffProfiles:
                 obj._TariffProfiles.append(self)
-            self._ConsumptionTariffIntervals.append(obj)
+            if obj not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(obj)
 
     def removeConsumptionTariffIntervals(self, *ConsumptionTariffIntervals):
         for obj in ConsumptionTariffIntervals:
@@ -101,7 +102,8 @@ class TariffProfile(Document):
         for obj in TimeTariffIntervals:
             if self not in obj._TariffProfiles:
                 obj._TariffProfiles.append(self)
-            self._TimeTariffIntervals.append(obj)
+            if obj not in self._TimeTariffIntervals:
+                self._TimeTariffIntervals.append(obj)
 
     def removeTimeTariffIntervals(self, *TimeTariffIntervals):
         for obj in TimeTariffIntervals:
@@ -129,7 +131,8 @@ class TariffProfile(Document):
         for obj in Tariffs:
             if self not in obj._TariffProfiles:
                 obj._TariffProfiles.append(self)
-            self._Tariffs.append(obj)
+            if obj not in self._Tariffs:
+                self._Tariffs.append(obj)
 
     def removeTariffs(self, *Tariffs):
         for obj in Tariffs:
diff --git a/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py b/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
index aa8ba51..e426bc5 100644
--- a/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
+++ b/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
@@ -73,7 +73,8 @@ class TimeTariffInterval(Element):
         for obj in TariffProfiles:
             if self not in obj._TimeTariffIntervals:
                 obj._TimeTariffIntervals.append(self)
-            self._TariffProfiles.append(obj)
+            if obj not in self._TariffProfiles:
+                self._TariffProfiles.append(obj)
 
     def removeTariffProfiles(self, *TariffProfiles):
         for obj in TariffProfiles:
@@ -101,7 +102,8 @@ class TimeTariffInterval(Element):
         for obj in Charges:
             if self not in obj._TimeTariffIntervals:
                 obj._TimeTariffIntervals.append(self)
-            self._Charges.append(obj)
+            if obj not in self._Charges:
+                self._Charges.append(obj)
 
     def removeCharges(self, *Charges):
         for obj in Charges:
diff --git a/CIM14/IEC61968/PaymentMetering/Transactor.py b/CIM14/IEC61968/PaymentMetering/Transactor.py
index 5f7c3cf..ca19a14 100644
--- a/CIM14/IEC61968/PaymentMetering/Transactor.py
+++ b/CIM14/IEC61968/PaymentMetering/Transactor.py
@@ -61,7 +61,8 @@ class Transactor(IdentifiedObject):
         for obj in MerchantAccounts:
             if self not in obj._Transactors:
                 obj._Transactors.append(self)
-            self._MerchantAccounts.append(obj)
+            if obj not in self._MerchantAccounts:
+                self._MerchantAccounts.append(obj)
 
     def removeMerchantAccounts(self, *MerchantAccounts):
         for obj in MerchantAccounts:
diff --git a/CIM14/IEC61968/Work/Work.py b/CIM14/IEC61968/Work/Work.py
index f0d8f99..2e1c341 100644
--- a/CIM14/IEC61968/Work/Work.py
+++ b/CIM14/IEC61968/Work/Work.py
@@ -73,7 +73,8 @@ class Work(Document):
         for obj in Customers:
             if self not in obj._Works:
                 obj._Works.append(self)
-            self._Customers.append(obj)
+            if obj not in self._Customers:
+                self._Customers.append(obj)
 
     def removeCustomers(self, *Customers):
         for obj in Customers:
diff --git a/CIM14/IEC61970/Core/ConductingEquipment.py b/CIM14/IEC61970/Core/ConductingEquipment.py
index b28c305..a38df17 100644
--- a/CIM14/IEC61970/Core/ConductingEquipment.py
+++ b/CIM14/IEC61970/Core/ConductingEquipment.py
@@ -156,7 +156,8 @@ class ConductingEquipment(Equipment):
         for obj in ProtectionEquipments:
             if self not in obj._ConductingEquipments:
                 obj._ConductingEquipments.append(self)
-            self._ProtectionEquipments.append(obj)
+            if obj not in self._ProtectionEquipments:
+                self._ProtectionEquipments.append(obj)
 
     def removeProtectionEquipments(self, *ProtectionEquipments):
         for obj in ProtectionEquipments:
diff --git a/CIM14/IEC61970/Core/Equipment.py b/CIM14/IEC61970/Core/Equipment.py
index cd2840e..234037d 100644
--- a/CIM14/IEC61970/Core/Equipment.py
+++ b/CIM14/IEC61970/Core/Equipment.py
@@ -139,7 +139,8 @@ class Equipment(PowerSystemResource):
         for obj in CustomerAgreements:
             if self not in obj._Equipments:
                 obj._Equipments.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
diff --git a/CIM14/IEC61970/Core/PowerSystemResource.py b/CIM14/IEC61970/Core/PowerSystemResource.py
index 5d743e1..603a7dc 100644
--- a/CIM14/IEC61970/Core/PowerSystemResource.py
+++ b/CIM14/IEC61970/Core/PowerSystemResource.py
@@ -110,7 +110,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in Assets:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
@@ -137,7 +138,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in PsrLists:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._PsrLists.append(obj)
+            if obj not in self._PsrLists:
+                self._PsrLists.append(obj)
 
     def removePsrLists(self, *PsrLists):
         for obj in PsrLists:
@@ -223,7 +225,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in ReportingGroup:
             if self not in obj._PowerSystemResource:
                 obj._PowerSystemResource.append(self)
-            self._ReportingGroup.append(obj)
+            if obj not in self._ReportingGroup:
+                self._ReportingGroup.append(obj)
 
     def removeReportingGroup(self, *ReportingGroup):
         for obj in ReportingGroup:
diff --git a/CIM14/IEC61970/Core/PsrList.py b/CIM14/IEC61970/Core/PsrList.py
index 0b990ee..13d1fae 100644
--- a/CIM14/IEC61970/Core/PsrList.py
+++ b/CIM14/IEC61970/Core/PsrList.py
@@ -64,7 +64,8 @@ class PsrList(IdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._PsrLists:
                 obj._PsrLists.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
diff --git a/CIM14/IEC61970/Core/ReportingGroup.py b/CIM14/IEC61970/Core/ReportingGroup.py
index 13c60b4..294a4d1 100644
--- a/CIM14/IEC61970/Core/ReportingGroup.py
+++ b/CIM14/IEC61970/Core/ReportingGroup.py
@@ -132,7 +132,8 @@ class ReportingGroup(IdentifiedObject):
         for obj in PowerSystemResource:
             if self not in obj._ReportingGroup:
                 obj._ReportingGroup.append(self)
-            self._PowerSystemResource.append(obj)
+            if obj not in self._PowerSystemResource:
+                self._PowerSystemResource.append(obj)
 
     def removePowerSystemResource(self, *PowerSystemResource):
         for obj in PowerSystemResource:
diff --git a/CIM14/IEC61970/Dynamics/BlockOutputReference.py b/CIM14/IEC61970/Dynamics/BlockOutputReference.py
index 991bbf8..efdfceb 100644
--- a/CIM14/IEC61970/Dynamics/BlockOutputReference.py
+++ b/CIM14/IEC61970/Dynamics/BlockOutputReference.py
@@ -80,7 +80,8 @@ class BlockOutputReference(MetaBlockConnectable):
         for obj in metaBlockReference0:
             if self not in obj._blockOutputReference0:
                 obj._blockOutputReference0.append(self)
-            self._metaBlockReference0.append(obj)
+            if obj not in self._metaBlockReference0:
+                self._metaBlockReference0.append(obj)
 
     def removemetaBlockReference0(self, *metaBlockReference0):
         for obj in metaBlockReference0:
diff --git a/CIM14/IEC61970/Dynamics/CompositeModel.py b/CIM14/IEC61970/Dynamics/CompositeModel.py
index 865a47a..9c528f9 100644
--- a/CIM14/IEC61970/Dynamics/CompositeModel.py
+++ b/CIM14/IEC61970/Dynamics/CompositeModel.py
@@ -58,7 +58,8 @@ class CompositeModel(Element):
         for obj in slotReference0:
             if self not in obj._compositeModel0:
                 obj._compositeModel0.append(self)
-            self._slotReference0.append(obj)
+            if obj not in self._slotReference0:
+                self._slotReference0.append(obj)
 
     def removeslotReference0(self, *slotReference0):
         for obj in slotReference0:
diff --git a/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py b/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
index 6e6e16f..8174f2b 100644
--- a/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
+++ b/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
@@ -64,7 +64,8 @@ class GenEquiv(RotatingMachine):
         for obj in synchronousMachine0:
             if self not in obj._genEquiv0:
                 obj._genEquiv0.append(self)
-            self._synchronousMachine0.append(obj)
+            if obj not in self._synchronousMachine0:
+                self._synchronousMachine0.append(obj)
 
     def removesynchronousMachine0(self, *synchronousMachine0):
         for obj in synchronousMachine0:
diff --git a/CIM14/IEC61970/Dynamics/Generators/GenLoad.py b/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
index 32f9b9f..1ffd6e1 100644
--- a/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
+++ b/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
@@ -60,7 +60,8 @@ class GenLoad(RegulatingCondEq):
         for obj in synchronousMachine0:
             if self not in obj._genLoad0:
                 obj._genLoad0.append(self)
-            self._synchronousMachine0.append(obj)
+            if obj not in self._synchronousMachine0:
+                self._synchronousMachine0.append(obj)
 
     def removesynchronousMachine0(self, *synchronousMachine0):
         for obj in synchronousMachine0:
diff --git a/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py b/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
index f133c33..c64263f 100644
--- a/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
+++ b/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
@@ -60,7 +60,8 @@ class AggregateLoad(PowerSystemResource):
         for obj in energyConsumer0:
             if self not in obj._aggregateLoad0:
                 obj._aggregateLoad0.append(self)
-            self._energyConsumer0.append(obj)
+            if obj not in self._energyConsumer0:
+                self._energyConsumer0.append(obj)
 
     def removeenergyConsumer0(self, *energyConsumer0):
         for obj in energyConsumer0:
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockReference.py b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
index e51d4ac..09ec7cd 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockReference.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
@@ -133,7 +133,8 @@ class MetaBlockReference(IdentifiedObject):
         for obj in blockOutputReference0:
             if self not in obj._metaBlockReference0:
                 obj._metaBlockReference0.append(self)
-            self._blockOutputReference0.append(obj)
+            if obj not in self._blockOutputReference0:
+                self._blockOutputReference0.append(obj)
 
     def removeblockOutputReference0(self, *blockOutputReference0):
         for obj in blockOutputReference0:
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockSignal.py b/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
index 8493083..9ae4906 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
@@ -74,7 +74,8 @@ class MetaBlockSignal(IdentifiedObject):
         for obj in metaBlockSignal1:
             if self not in obj._metaBlockSignal:
                 obj._metaBlockSignal.append(self)
-            self._metaBlockSignal1.append(obj)
+            if obj not in self._metaBlockSignal1:
+                self._metaBlockSignal1.append(obj)
 
     def removemetaBlockSignal1(self, *metaBlockSignal1):
         for obj in metaBlockSignal1:
@@ -101,7 +102,8 @@ class MetaBlockSignal(IdentifiedObject):
         for obj in metaBlockSignal:
             if self not in obj._metaBlockSignal1:
                 obj._metaBlockSignal1.append(self)
-            self._metaBlockSignal.append(obj)
+            if obj not in self._metaBlockSignal:
+                self._metaBlockSignal.append(obj)
 
     def removemetaBlockSignal(self, *metaBlockSignal):
         for obj in metaBlockSignal:
diff --git a/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py b/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
index 1f321e3..34f2a85 100644
--- a/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
+++ b/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
@@ -60,7 +60,8 @@ class MechanicalLoad(PowerSystemResource):
         for obj in rotatingMachine0:
             if self not in obj._mechanicalLoad0:
                 obj._mechanicalLoad0.append(self)
-            self._rotatingMachine0.append(obj)
+            if obj not in self._rotatingMachine0:
+                self._rotatingMachine0.append(obj)
 
     def removerotatingMachine0(self, *rotatingMachine0):
         for obj in rotatingMachine0:
diff --git a/CIM14/IEC61970/Dynamics/RotatingMachine.py b/CIM14/IEC61970/Dynamics/RotatingMachine.py
index a89d60a..8ad28f1 100644
--- a/CIM14/IEC61970/Dynamics/RotatingMachine.py
+++ b/CIM14/IEC61970/Dynamics/RotatingMachine.py
@@ -92,7 +92,8 @@ class RotatingMachine(RegulatingCondEq):
         for obj in mechanicalLoad0:
             if self not in obj._rotatingMachine0:
                 obj._rotatingMachine0.append(self)
-            self._mechanicalLoad0.append(obj)
+            if obj not in self._mechanicalLoad0:
+                self._mechanicalLoad0.append(obj)
 
     def removemechanicalLoad0(self, *mechanicalLoad0):
         for obj in mechanicalLoad0:
diff --git a/CIM14/IEC61970/Dynamics/SlotReference.py b/CIM14/IEC61970/Dynamics/SlotReference.py
index ce8dd18..38747b0 100644
--- a/CIM14/IEC61970/Dynamics/SlotReference.py
+++ b/CIM14/IEC61970/Dynamics/SlotReference.py
@@ -104,7 +104,8 @@ class SlotReference(IdentifiedObject):
         for obj in compositeModel0:
             if self not in obj._slotReference0:
                 obj._slotReference0.append(self)
-            self._compositeModel0.append(obj)
+            if obj not in self._compositeModel0:
+                self._compositeModel0.append(obj)
 
     def removecompositeModel0(self, *compositeModel0):
         for obj in compositeModel0:
diff --git a/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py b/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
index 272a22b..c1d5677 100644
--- a/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
+++ b/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
@@ -131,7 +131,8 @@ class GovHydro1(TurbineGovernor):
         for obj in synchronousMachine0:
             if self not in obj._govHydro10:
                 obj._govHydro10.append(self)
-            self._synchronousMachine0.append(obj)
+            if obj not in self._synchronousMachine0:
+                self._synchronousMachine0.append(obj)
 
     def removesynchronousMachine0(self, *synchronousMachine0):
         for obj in synchronousMachine0:
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py b/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
index 43d3ae2..ae45784 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
@@ -65,7 +65,8 @@ class PrimeMover(PowerSystemResource):
         for obj in SynchronousMachines:
             if self not in obj._PrimeMovers:
                 obj._PrimeMovers.append(self)
-            self._SynchronousMachines.append(obj)
+            if obj not in self._SynchronousMachines:
+                self._SynchronousMachines.append(obj)
 
     def removeSynchronousMachines(self, *SynchronousMachines):
         for obj in SynchronousMachines:
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py b/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
index 2d55928..9738203 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
@@ -65,7 +65,8 @@ class SteamSupply(PowerSystemResource):
         for obj in SteamTurbines:
             if self not in obj._SteamSupplys:
                 obj._SteamSupplys.append(self)
-            self._SteamTurbines.append(obj)
+            if obj not in self._SteamTurbines:
+                self._SteamTurbines.append(obj)
 
     def removeSteamTurbines(self, *SteamTurbines):
         for obj in SteamTurbines:
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py b/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
index 1dffc55..ddb22d0 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
@@ -109,7 +109,8 @@ class SteamTurbine(PrimeMover):
         for obj in SteamSupplys:
             if self not in obj._SteamTurbines:
                 obj._SteamTurbines.append(self)
-            self._SteamSupplys.append(obj)
+            if obj not in self._SteamSupplys:
+                self._SteamSupplys.append(obj)
 
     def removeSteamSupplys(self, *SteamSupplys):
         for obj in SteamSupplys:
diff --git a/CIM14/IEC61970/Meas/Accumulator.py b/CIM14/IEC61970/Meas/Accumulator.py
index 0d613b9..56fc739 100644
--- a/CIM14/IEC61970/Meas/Accumulator.py
+++ b/CIM14/IEC61970/Meas/Accumulator.py
@@ -69,7 +69,8 @@ class Accumulator(Measurement):
         for obj in LimitSets:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._LimitSets.append(obj)
+            if obj not in self._LimitSets:
+                self._LimitSets.append(obj)
 
     def removeLimitSets(self, *LimitSets):
         for obj in LimitSets:
diff --git a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
index 1a4408f..0633d32 100644
--- a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
@@ -65,7 +65,8 @@ class AccumulatorLimitSet(LimitSet):
         for obj in Measurements:
             if self not in obj._LimitSets:
                 obj._LimitSets.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
diff --git a/CIM14/IEC61970/Meas/Analog.py b/CIM14/IEC61970/Meas/Analog.py
index a5517b3..848a769 100644
--- a/CIM14/IEC61970/Meas/Analog.py
+++ b/CIM14/IEC61970/Meas/Analog.py
@@ -85,7 +85,8 @@ class Analog(Measurement):
         for obj in LimitSets:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._LimitSets.append(obj)
+            if obj not in self._LimitSets:
+                self._LimitSets.append(obj)
 
     def removeLimitSets(self, *LimitSets):
         for obj in LimitSets:
diff --git a/CIM14/IEC61970/Meas/AnalogLimitSet.py b/CIM14/IEC61970/Meas/AnalogLimitSet.py
index ca3bc4a..3af782e 100644
--- a/CIM14/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM14/IEC61970/Meas/AnalogLimitSet.py
@@ -65,7 +65,8 @@ class AnalogLimitSet(LimitSet):
         for obj in Measurements:
             if self not in obj._LimitSets:
                 obj._LimitSets.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
diff --git a/CIM14/IEC61970/Meas/Measurement.py b/CIM14/IEC61970/Meas/Measurement.py
index 29c8b38..9e7a863 100644
--- a/CIM14/IEC61970/Meas/Measurement.py
+++ b/CIM14/IEC61970/Meas/Measurement.py
@@ -105,7 +105,8 @@ class Measurement(IdentifiedObject):
         for obj in Locations:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
@@ -203,7 +204,8 @@ class Measurement(IdentifiedObject):
         for obj in Documents:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
diff --git a/CIM14/IEC61970/Outage/SwitchingOperation.py b/CIM14/IEC61970/Outage/SwitchingOperation.py
index 53ef81e..d32caed 100644
--- a/CIM14/IEC61970/Outage/SwitchingOperation.py
+++ b/CIM14/IEC61970/Outage/SwitchingOperation.py
@@ -73,7 +73,8 @@ class SwitchingOperation(IdentifiedObject):
         for obj in Switches:
             if self not in obj._SwitchingOperations:
                 obj._SwitchingOperations.append(self)
-            self._Switches.append(obj)
+            if obj not in self._Switches:
+                self._Switches.append(obj)
 
     def removeSwitches(self, *Switches):
         for obj in Switches:
diff --git a/CIM14/IEC61970/Protection/ProtectionEquipment.py b/CIM14/IEC61970/Protection/ProtectionEquipment.py
index 643a191..fe8d98a 100644
--- a/CIM14/IEC61970/Protection/ProtectionEquipment.py
+++ b/CIM14/IEC61970/Protection/ProtectionEquipment.py
@@ -109,7 +109,8 @@ class ProtectionEquipment(Equipment):
         for obj in ConductingEquipments:
             if self not in obj._ProtectionEquipments:
                 obj._ProtectionEquipments.append(self)
-            self._ConductingEquipments.append(obj)
+            if obj not in self._ConductingEquipments:
+                self._ConductingEquipments.append(obj)
 
     def removeConductingEquipments(self, *ConductingEquipments):
         for obj in ConductingEquipments:
diff --git a/CIM14/IEC61970/SCADA/CommunicationLink.py b/CIM14/IEC61970/SCADA/CommunicationLink.py
index 1b50d87..36c7ce8 100644
--- a/CIM14/IEC61970/SCADA/CommunicationLink.py
+++ b/CIM14/IEC61970/SCADA/CommunicationLink.py
@@ -61,7 +61,8 @@ class CommunicationLink(PowerSystemResource):
         for obj in RemoteUnits:
             if self not in obj._CommunicationLinks:
                 obj._CommunicationLinks.append(self)
-            self._RemoteUnits.append(obj)
+            if obj not in self._RemoteUnits:
+                self._RemoteUnits.append(obj)
 
     def removeRemoteUnits(self, *RemoteUnits):
         for obj in RemoteUnits:
diff --git a/CIM14/IEC61970/SCADA/RemoteUnit.py b/CIM14/IEC61970/SCADA/RemoteUnit.py
index 1ad1d99..6630039 100644
--- a/CIM14/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM14/IEC61970/SCADA/RemoteUnit.py
@@ -69,7 +69,8 @@ class RemoteUnit(PowerSystemResource):
         for obj in CommunicationLinks:
             if self not in obj._RemoteUnits:
                 obj._RemoteUnits.append(self)
-            self._CommunicationLinks.append(obj)
+            if obj not in self._CommunicationLinks:
+                self._CommunicationLinks.append(obj)
 
     def removeCommunicationLinks(self, *CommunicationLinks):
         for obj in CommunicationLinks:
diff --git a/CIM14/IEC61970/Wires/EnergyConsumer.py b/CIM14/IEC61970/Wires/EnergyConsumer.py
index 4d59f32..15877f0 100644
--- a/CIM14/IEC61970/Wires/EnergyConsumer.py
+++ b/CIM14/IEC61970/Wires/EnergyConsumer.py
@@ -92,7 +92,8 @@ class EnergyConsumer(ConductingEquipment):
         for obj in aggregateLoad0:
             if self not in obj._energyConsumer0:
                 obj._energyConsumer0.append(self)
-            self._aggregateLoad0.append(obj)
+            if obj not in self._aggregateLoad0:
+                self._aggregateLoad0.append(obj)
 
     def removeaggregateLoad0(self, *aggregateLoad0):
         for obj in aggregateLoad0:
diff --git a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
index b960720..6dd3625 100644
--- a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -94,7 +94,8 @@ class ReactiveCapabilityCurve(Curve):
         for obj in SynchronousMachines:
             if self not in obj._ReactiveCapabilityCurves:
                 obj._ReactiveCapabilityCurves.append(self)
-            self._SynchronousMachines.append(obj)
+            if obj not in self._SynchronousMachines:
+                self._SynchronousMachines.append(obj)
 
     def removeSynchronousMachines(self, *SynchronousMachines):
         for obj in SynchronousMachines:
diff --git a/CIM14/IEC61970/Wires/Switch.py b/CIM14/IEC61970/Wires/Switch.py
index 0a140ba..180893c 100644
--- a/CIM14/IEC61970/Wires/Switch.py
+++ b/CIM14/IEC61970/Wires/Switch.py
@@ -89,7 +89,8 @@ class Switch(ConductingEquipment):
         for obj in SwitchingOperations:
             if self not in obj._Switches:
                 obj._Switches.append(self)
-            self._SwitchingOperations.append(obj)
+            if obj not in self._SwitchingOperations:
+                self._SwitchingOperations.append(obj)
 
     def removeSwitchingOperations(self, *SwitchingOperations):
         for obj in SwitchingOperations:
@@ -133,7 +134,8 @@ class Switch(ConductingEquipment):
         for obj in ConnectDisconnectFunctions:
             if self not in obj._Switches:
                 obj._Switches.append(self)
-            self._ConnectDisconnectFunctions.append(obj)
+            if obj not in self._ConnectDisconnectFunctions:
+                self._ConnectDisconnectFunctions.append(obj)
 
     def removeConnectDisconnectFunctions(self, *ConnectDisconnectFunctions):
         for obj in ConnectDisconnectFunctions:
diff --git a/CIM14/IEC61970/Wires/SynchronousMachine.py b/CIM14/IEC61970/Wires/SynchronousMachine.py
index 8a53906..73721a6 100644
--- a/CIM14/IEC61970/Wires/SynchronousMachine.py
+++ b/CIM14/IEC61970/Wires/SynchronousMachine.py
@@ -204,7 +204,8 @@ class SynchronousMachine(RotatingMachine):
         for obj in genLoad0:
             if self not in obj._synchronousMachine0:
                 obj._synchronousMachine0.append(self)
-            self._genLoad0.append(obj)
+            if obj not in self._genLoad0:
+                self._genLoad0.append(obj)
 
     def removegenLoad0(self, *genLoad0):
         for obj in genLoad0:
@@ -264,7 +265,8 @@ class SynchronousMachine(RotatingMachine):
         for obj in govHydro10:
             if self not in obj._synchronousMachine0:
                 obj._synchronousMachine0.append(self)
-            self._govHydro10.append(obj)
+            if obj not in self._govHydro10:
+                self._govHydro10.append(obj)
 
     def removegovHydro10(self, *govHydro10):
         for obj in govHydro10:
@@ -292,7 +294,8 @@ class SynchronousMachine(RotatingMachine):
         for obj in PrimeMovers:
             if self not in obj._SynchronousMachines:
                 obj._SynchronousMachines.append(self)
-            self._PrimeMovers.append(obj)
+            if obj not in self._PrimeMovers:
+                self._PrimeMovers.append(obj)
 
     def removePrimeMovers(self, *PrimeMovers):
         for obj in PrimeMovers:
@@ -336,7 +339,8 @@ class SynchronousMachine(RotatingMachine):
         for obj in genEquiv0:
             if self not in obj._synchronousMachine0:
                 obj._synchronousMachine0.append(self)
-            self._genEquiv0.append(obj)
+            if obj not in self._genEquiv0:
+                self._genEquiv0.append(obj)
 
     def removegenEquiv0(self, *genEquiv0):
         for obj in genEquiv0:
@@ -364,7 +368,8 @@ class SynchronousMachine(RotatingMachine):
         for obj in ReactiveCapabilityCurves:
             if self not in obj._SynchronousMachines:
                 obj._SynchronousMachines.append(self)
-            self._ReactiveCapabilityCurves.append(obj)
+            if obj not in self._ReactiveCapabilityCurves:
+                self._ReactiveCapabilityCurves.append(obj)
 
     def removeReactiveCapabilityCurves(self, *ReactiveCapabilityCurves):
         for obj in ReactiveCapabilityCurves:
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
index 2be418e..4d70fb8 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
@@ -94,7 +94,8 @@ class TransformerEnd(IdentifiedObject):
         for obj in ToMeshImpedance:
             if self not in obj._ToTransformerEnd:
                 obj._ToTransformerEnd.append(self)
-            self._ToMeshImpedance.append(obj)
+            if obj not in self._ToMeshImpedance:
+                self._ToMeshImpedance.append(obj)
 
     def removeToMeshImpedance(self, *ToMeshImpedance):
         for obj in ToMeshImpedance:
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
index 0a58bca..af3a4a1 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
@@ -98,7 +98,8 @@ class TransformerMeshImpedance(IdentifiedObject):
         for obj in ToTransformerEnd:
             if self not in obj._ToMeshImpedance:
                 obj._ToMeshImpedance.append(self)
-            self._ToTransformerEnd.append(obj)
+            if obj not in self._ToTransformerEnd:
+                self._ToTransformerEnd.append(obj)
 
     def removeToTransformerEnd(self, *ToTransformerEnd):
         for obj in ToTransformerEnd:
diff --git a/CIM15/IEC61968/AssetModels/ShortCircuitTest.py b/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
index 433535a..8f56cfb 100644
--- a/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
@@ -89,7 +89,8 @@ class ShortCircuitTest(TransformerTest):
         for obj in GroundedEnds:
             if self not in obj._GroundedEndShortCircuitTests:
                 obj._GroundedEndShortCircuitTests.append(self)
-            self._GroundedEnds.append(obj)
+            if obj not in self._GroundedEnds:
+                self._GroundedEnds.append(obj)
 
     def removeGroundedEnds(self, *GroundedEnds):
         for obj in GroundedEnds:
diff --git a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
index ada586f..11b8ccb 100644
--- a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
+++ b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
@@ -196,7 +196,8 @@ class TransformerEndInfo(AssetInfo):
         for obj in ToMeshImpedance:
             if self not in obj._ToTransformerEndInfo:
                 obj._ToTransformerEndInfo.append(self)
-            self._ToMeshImpedance.append(obj)
+            if obj not in self._ToMeshImpedance:
+                self._ToMeshImpedance.append(obj)
 
     def removeToMeshImpedance(self, *ToMeshImpedance):
         for obj in ToMeshImpedance:
@@ -283,7 +284,8 @@ class TransformerEndInfo(AssetInfo):
         for obj in GroundedEndShortCircuitTests:
             if self not in obj._GroundedEnds:
                 obj._GroundedEnds.append(self)
-            self._GroundedEndShortCircuitTests.append(obj)
+            if obj not in self._GroundedEndShortCircuitTests:
+                self._GroundedEndShortCircuitTests.append(obj)
 
     def removeGroundedEndShortCircuitTests(self, *GroundedEndShortCircuitTests):
         for obj in GroundedEndShortCircuitTests:
diff --git a/CIM15/IEC61968/Assets/Asset.py b/CIM15/IEC61968/Assets/Asset.py
index 94c9618..4a5fdea 100644
--- a/CIM15/IEC61968/Assets/Asset.py
+++ b/CIM15/IEC61968/Assets/Asset.py
@@ -225,7 +225,8 @@ class Asset(IdentifiedObject):
         for obj in Mediums:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._Mediums.append(obj)
+            if obj not in self._Mediums:
+                self._Mediums.append(obj)
 
     def removeMediums(self, *Mediums):
         for obj in Mediums:
@@ -252,7 +253,8 @@ class Asset(IdentifiedObject):
         for obj in ErpRecDeliveryItems:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._ErpRecDeliveryItems.append(obj)
+            if obj not in self._ErpRecDeliveryItems:
+                self._ErpRecDeliveryItems.append(obj)
 
     def removeErpRecDeliveryItems(self, *ErpRecDeliveryItems):
         for obj in ErpRecDeliveryItems:
@@ -280,7 +282,8 @@ class Asset(IdentifiedObject):
         for obj in Ratings:
             if self not in obj._RatingAssets:
                 obj._RatingAssets.append(self)
-            self._Ratings.append(obj)
+            if obj not in self._Ratings:
+                self._Ratings.append(obj)
 
     def removeRatings(self, *Ratings):
         for obj in Ratings:
@@ -400,7 +403,8 @@ class Asset(IdentifiedObject):
         for obj in ReliabilityInfos:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._ReliabilityInfos.append(obj)
+            if obj not in self._ReliabilityInfos:
+                self._ReliabilityInfos.append(obj)
 
     def removeReliabilityInfos(self, *ReliabilityInfos):
         for obj in ReliabilityInfos:
@@ -482,7 +486,8 @@ class Asset(IdentifiedObject):
         for obj in ScheduledEvents:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._ScheduledEvents.append(obj)
+            if obj not in self._ScheduledEvents:
+                self._ScheduledEvents.append(obj)
 
     def removeScheduledEvents(self, *ScheduledEvents):
         for obj in ScheduledEvents:
@@ -525,7 +530,8 @@ class Asset(IdentifiedObject):
         for obj in AssetPropertyCurves:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._AssetPropertyCurves.append(obj)
+            if obj not in self._AssetPropertyCurves:
+                self._AssetPropertyCurves.append(obj)
 
     def removeAssetPropertyCurves(self, *AssetPropertyCurves):
         for obj in AssetPropertyCurves:
@@ -573,7 +579,8 @@ class Asset(IdentifiedObject):
         for obj in ActivityRecords:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._ActivityRecords.append(obj)
+            if obj not in self._ActivityRecords:
+                self._ActivityRecords.append(obj)
 
     def removeActivityRecords(self, *ActivityRecords):
         for obj in ActivityRecords:
@@ -621,7 +628,8 @@ class Asset(IdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._Assets:
                 obj._Assets.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
@@ -664,7 +672,8 @@ class Asset(IdentifiedObject):
         for obj in Properties:
             if self not in obj._PropertyAssets:
                 obj._PropertyAssets.append(self)
-            self._Properties.append(obj)
+            if obj not in self._Properties:
+                self._Properties.append(obj)
 
     def removeProperties(self, *Properties):
         for obj in Properties:
diff --git a/CIM15/IEC61968/Assets/AssetContainer.py b/CIM15/IEC61968/Assets/AssetContainer.py
index c7bd77d..cda91e5 100644
--- a/CIM15/IEC61968/Assets/AssetContainer.py
+++ b/CIM15/IEC61968/Assets/AssetContainer.py
@@ -109,7 +109,8 @@ class AssetContainer(Asset):
         for obj in LandProperties:
             if self not in obj._AssetContainers:
                 obj._AssetContainers.append(self)
-            self._LandProperties.append(obj)
+            if obj not in self._LandProperties:
+                self._LandProperties.append(obj)
 
     def removeLandProperties(self, *LandProperties):
         for obj in LandProperties:
diff --git a/CIM15/IEC61968/Common/ActivityRecord.py b/CIM15/IEC61968/Common/ActivityRecord.py
index 3f4105e..268c9a7 100644
--- a/CIM15/IEC61968/Common/ActivityRecord.py
+++ b/CIM15/IEC61968/Common/ActivityRecord.py
@@ -95,7 +95,8 @@ class ActivityRecord(IdentifiedObject):
         for obj in ErpPersons:
             if self not in obj._ActivityRecords:
                 obj._ActivityRecords.append(self)
-            self._ErpPersons.append(obj)
+            if obj not in self._ErpPersons:
+                self._ErpPersons.append(obj)
 
     def removeErpPersons(self, *ErpPersons):
         for obj in ErpPersons:
@@ -122,7 +123,8 @@ class ActivityRecord(IdentifiedObject):
         for obj in Organisations:
             if self not in obj._ActivityRecords:
                 obj._ActivityRecords.append(self)
-            self._Organisations.append(obj)
+            if obj not in self._Organisations:
+                self._Organisations.append(obj)
 
     def removeOrganisations(self, *Organisations):
         for obj in Organisations:
@@ -150,7 +152,8 @@ class ActivityRecord(IdentifiedObject):
         for obj in Documents:
             if self not in obj._ActivityRecords:
                 obj._ActivityRecords.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
@@ -178,7 +181,8 @@ class ActivityRecord(IdentifiedObject):
         for obj in Assets:
             if self not in obj._ActivityRecords:
                 obj._ActivityRecords.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM15/IEC61968/Common/CoordinateSystem.py b/CIM15/IEC61968/Common/CoordinateSystem.py
index 6abb2e5..14f92bf 100644
--- a/CIM15/IEC61968/Common/CoordinateSystem.py
+++ b/CIM15/IEC61968/Common/CoordinateSystem.py
@@ -113,7 +113,8 @@ class CoordinateSystem(IdentifiedObject):
         for obj in GmlDiagramObjects:
             if self not in obj._CoordinateSystems:
                 obj._CoordinateSystems.append(self)
-            self._GmlDiagramObjects.append(obj)
+            if obj not in self._GmlDiagramObjects:
+                self._GmlDiagramObjects.append(obj)
 
     def removeGmlDiagramObjects(self, *GmlDiagramObjects):
         for obj in GmlDiagramObjects:
diff --git a/CIM15/IEC61968/Common/Document.py b/CIM15/IEC61968/Common/Document.py
index 47270ef..5d43c9b 100644
--- a/CIM15/IEC61968/Common/Document.py
+++ b/CIM15/IEC61968/Common/Document.py
@@ -184,7 +184,8 @@ class Document(IdentifiedObject):
         for obj in NetworkDataSets:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._NetworkDataSets.append(obj)
+            if obj not in self._NetworkDataSets:
+                self._NetworkDataSets.append(obj)
 
     def removeNetworkDataSets(self, *NetworkDataSets):
         for obj in NetworkDataSets:
@@ -231,7 +232,8 @@ class Document(IdentifiedObject):
         for obj in ScheduleParameterInfos:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._ScheduleParameterInfos.append(obj)
+            if obj not in self._ScheduleParameterInfos:
+                self._ScheduleParameterInfos.append(obj)
 
     def removeScheduleParameterInfos(self, *ScheduleParameterInfos):
         for obj in ScheduleParameterInfos:
@@ -279,7 +281,8 @@ class Document(IdentifiedObject):
         for obj in Measurements:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
@@ -307,7 +310,8 @@ class Document(IdentifiedObject):
         for obj in ActivityRecords:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._ActivityRecords.append(obj)
+            if obj not in self._ActivityRecords:
+                self._ActivityRecords.append(obj)
 
     def removeActivityRecords(self, *ActivityRecords):
         for obj in ActivityRecords:
@@ -334,7 +338,8 @@ class Document(IdentifiedObject):
         for obj in ChangeSets:
             if self not in obj._Documents:
                 obj._Documents.append(self)
-            self._ChangeSets.append(obj)
+            if obj not in self._ChangeSets:
+                self._ChangeSets.append(obj)
 
     def removeChangeSets(self, *ChangeSets):
         for obj in ChangeSets:
diff --git a/CIM15/IEC61968/Common/Location.py b/CIM15/IEC61968/Common/Location.py
index b27abf3..2a0114d 100644
--- a/CIM15/IEC61968/Common/Location.py
+++ b/CIM15/IEC61968/Common/Location.py
@@ -199,7 +199,8 @@ class Location(IdentifiedObject):
         for obj in RedLines:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._RedLines.append(obj)
+            if obj not in self._RedLines:
+                self._RedLines.append(obj)
 
     def removeRedLines(self, *RedLines):
         for obj in RedLines:
@@ -242,7 +243,8 @@ class Location(IdentifiedObject):
         for obj in LandProperties:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._LandProperties.append(obj)
+            if obj not in self._LandProperties:
+                self._LandProperties.append(obj)
 
     def removeLandProperties(self, *LandProperties):
         for obj in LandProperties:
@@ -290,7 +292,8 @@ class Location(IdentifiedObject):
         for obj in Hazards:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._Hazards.append(obj)
+            if obj not in self._Hazards:
+                self._Hazards.append(obj)
 
     def removeHazards(self, *Hazards):
         for obj in Hazards:
@@ -320,7 +323,8 @@ class Location(IdentifiedObject):
         for obj in Crews:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
@@ -391,7 +395,8 @@ class Location(IdentifiedObject):
         for obj in Measurements:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
@@ -418,7 +423,8 @@ class Location(IdentifiedObject):
         for obj in Routes:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._Routes.append(obj)
+            if obj not in self._Routes:
+                self._Routes.append(obj)
 
     def removeRoutes(self, *Routes):
         for obj in Routes:
@@ -462,7 +468,8 @@ class Location(IdentifiedObject):
         for obj in ErpOrganisations:
             if self not in obj._Locations:
                 obj._Locations.append(self)
-            self._ErpOrganisations.append(obj)
+            if obj not in self._ErpOrganisations:
+                self._ErpOrganisations.append(obj)
 
     def removeErpOrganisations(self, *ErpOrganisations):
         for obj in ErpOrganisations:
diff --git a/CIM15/IEC61968/Common/Organisation.py b/CIM15/IEC61968/Common/Organisation.py
index 42805fa..2c92fd4 100644
--- a/CIM15/IEC61968/Common/Organisation.py
+++ b/CIM15/IEC61968/Common/Organisation.py
@@ -90,7 +90,8 @@ class Organisation(IdentifiedObject):
         for obj in BusinessRoles:
             if self not in obj._Organisations:
                 obj._Organisations.append(self)
-            self._BusinessRoles.append(obj)
+            if obj not in self._BusinessRoles:
+                self._BusinessRoles.append(obj)
 
     def removeBusinessRoles(self, *BusinessRoles):
         for obj in BusinessRoles:
diff --git a/CIM15/IEC61968/Common/UserAttribute.py b/CIM15/IEC61968/Common/UserAttribute.py
index 5682770..ff2ecfe 100644
--- a/CIM15/IEC61968/Common/UserAttribute.py
+++ b/CIM15/IEC61968/Common/UserAttribute.py
@@ -104,7 +104,8 @@ class UserAttribute(Element):
         for obj in ErpLedgerEntries:
             if self not in obj._UserAttributes:
                 obj._UserAttributes.append(self)
-            self._ErpLedgerEntries.append(obj)
+            if obj not in self._ErpLedgerEntries:
+                self._ErpLedgerEntries.append(obj)
 
     def removeErpLedgerEntries(self, *ErpLedgerEntries):
         for obj in ErpLedgerEntries:
@@ -131,7 +132,8 @@ class UserAttribute(Element):
         for obj in ProcedureDataSets:
             if self not in obj._Properties:
                 obj._Properties.append(self)
-            self._ProcedureDataSets.append(obj)
+            if obj not in self._ProcedureDataSets:
+                self._ProcedureDataSets.append(obj)
 
     def removeProcedureDataSets(self, *ProcedureDataSets):
         for obj in ProcedureDataSets:
@@ -207,7 +209,8 @@ class UserAttribute(Element):
         for obj in PropertyAssets:
             if self not in obj._Properties:
                 obj._Properties.append(self)
-            self._PropertyAssets.append(obj)
+            if obj not in self._PropertyAssets:
+                self._PropertyAssets.append(obj)
 
     def removePropertyAssets(self, *PropertyAssets):
         for obj in PropertyAssets:
@@ -250,7 +253,8 @@ class UserAttribute(Element):
         for obj in ErpInvoiceLineItems:
             if self not in obj._UserAttributes:
                 obj._UserAttributes.append(self)
-            self._ErpInvoiceLineItems.append(obj)
+            if obj not in self._ErpInvoiceLineItems:
+                self._ErpInvoiceLineItems.append(obj)
 
     def removeErpInvoiceLineItems(self, *ErpInvoiceLineItems):
         for obj in ErpInvoiceLineItems:
@@ -277,7 +281,8 @@ class UserAttribute(Element):
         for obj in RatingAssets:
             if self not in obj._Ratings:
                 obj._Ratings.append(self)
-            self._RatingAssets.append(obj)
+            if obj not in self._RatingAssets:
+                self._RatingAssets.append(obj)
 
     def removeRatingAssets(self, *RatingAssets):
         for obj in RatingAssets:
diff --git a/CIM15/IEC61968/Customers/Customer.py b/CIM15/IEC61968/Customers/Customer.py
index 44fc93f..a71c601 100644
--- a/CIM15/IEC61968/Customers/Customer.py
+++ b/CIM15/IEC61968/Customers/Customer.py
@@ -166,7 +166,8 @@ class Customer(Organisation):
         for obj in Works:
             if self not in obj._Customers:
                 obj._Customers.append(self)
-            self._Works.append(obj)
+            if obj not in self._Works:
+                self._Works.append(obj)
 
     def removeWorks(self, *Works):
         for obj in Works:
@@ -212,7 +213,8 @@ class Customer(Organisation):
         for obj in OutageNotifications:
             if self not in obj._CustomerDatas:
                 obj._CustomerDatas.append(self)
-            self._OutageNotifications.append(obj)
+            if obj not in self._OutageNotifications:
+                self._OutageNotifications.append(obj)
 
     def removeOutageNotifications(self, *OutageNotifications):
         for obj in OutageNotifications:
diff --git a/CIM15/IEC61968/Customers/CustomerAgreement.py b/CIM15/IEC61968/Customers/CustomerAgreement.py
index 6b8e3e0..cfdbd6f 100644
--- a/CIM15/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM15/IEC61968/Customers/CustomerAgreement.py
@@ -117,7 +117,8 @@ class CustomerAgreement(Agreement):
         for obj in PricingStructures:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._PricingStructures.append(obj)
+            if obj not in self._PricingStructures:
+                self._PricingStructures.append(obj)
 
     def removePricingStructures(self, *PricingStructures):
         for obj in PricingStructures:
@@ -219,7 +220,8 @@ class CustomerAgreement(Agreement):
         for obj in Equipments:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._Equipments.append(obj)
+            if obj not in self._Equipments:
+                self._Equipments.append(obj)
 
     def removeEquipments(self, *Equipments):
         for obj in Equipments:
@@ -264,7 +266,8 @@ class CustomerAgreement(Agreement):
         for obj in ServiceLocations:
             if self not in obj._CustomerAgreements:
                 obj._CustomerAgreements.append(self)
-            self._ServiceLocations.append(obj)
+            if obj not in self._ServiceLocations:
+                self._ServiceLocations.append(obj)
 
     def removeServiceLocations(self, *ServiceLocations):
         for obj in ServiceLocations:
diff --git a/CIM15/IEC61968/Customers/PricingStructure.py b/CIM15/IEC61968/Customers/PricingStructure.py
index d80102f..d589848 100644
--- a/CIM15/IEC61968/Customers/PricingStructure.py
+++ b/CIM15/IEC61968/Customers/PricingStructure.py
@@ -118,7 +118,8 @@ class PricingStructure(Document):
         for obj in CustomerAgreements:
             if self not in obj._PricingStructures:
                 obj._PricingStructures.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
@@ -146,7 +147,8 @@ class PricingStructure(Document):
         for obj in ServiceDeliveryPoints:
             if self not in obj._PricingStructures:
                 obj._PricingStructures.append(self)
-            self._ServiceDeliveryPoints.append(obj)
+            if obj not in self._ServiceDeliveryPoints:
+                self._ServiceDeliveryPoints.append(obj)
 
     def removeServiceDeliveryPoints(self, *ServiceDeliveryPoints):
         for obj in ServiceDeliveryPoints:
@@ -174,7 +176,8 @@ class PricingStructure(Document):
         for obj in Tariffs:
             if self not in obj._PricingStructures:
                 obj._PricingStructures.append(self)
-            self._Tariffs.append(obj)
+            if obj not in self._Tariffs:
+                self._Tariffs.append(obj)
 
     def removeTariffs(self, *Tariffs):
         for obj in Tariffs:
diff --git a/CIM15/IEC61968/Customers/ServiceLocation.py b/CIM15/IEC61968/Customers/ServiceLocation.py
index d1de1ab..63392a6 100644
--- a/CIM15/IEC61968/Customers/ServiceLocation.py
+++ b/CIM15/IEC61968/Customers/ServiceLocation.py
@@ -147,7 +147,8 @@ class ServiceLocation(Location):
         for obj in CustomerAgreements:
             if self not in obj._ServiceLocations:
                 obj._ServiceLocations.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
diff --git a/CIM15/IEC61968/Customers/Tariff.py b/CIM15/IEC61968/Customers/Tariff.py
index 20783f0..386847c 100644
--- a/CIM15/IEC61968/Customers/Tariff.py
+++ b/CIM15/IEC61968/Customers/Tariff.py
@@ -73,7 +73,8 @@ class Tariff(Document):
         for obj in PricingStructures:
             if self not in obj._Tariffs:
                 obj._Tariffs.append(self)
-            self._PricingStructures.append(obj)
+            if obj not in self._PricingStructures:
+                self._PricingStructures.append(obj)
 
     def removePricingStructures(self, *PricingStructures):
         for obj in PricingStructures:
@@ -101,7 +102,8 @@ class Tariff(Document):
         for obj in TariffProfiles:
             if self not in obj._Tariffs:
                 obj._Tariffs.append(self)
-            self._TariffProfiles.append(obj)
+            if obj not in self._TariffProfiles:
+                self._TariffProfiles.append(obj)
 
     def removeTariffProfiles(self, *TariffProfiles):
         for obj in TariffProfiles:
diff --git a/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py b/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
index ccd5de7..77ae0e4 100644
--- a/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
+++ b/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
@@ -94,7 +94,8 @@ class ConnectDisconnectFunction(EndDeviceFunction):
         for obj in Switches:
             if self not in obj._ConnectDisconnectFunctions:
                 obj._ConnectDisconnectFunctions.append(self)
-            self._Switches.append(obj)
+            if obj not in self._Switches:
+                self._Switches.append(obj)
 
     def removeSwitches(self, *Switches):
         for obj in Switches:
diff --git a/CIM15/IEC61968/Metering/EndDevice.py b/CIM15/IEC61968/Metering/EndDevice.py
index 2afb706..a03cafa 100644
--- a/CIM15/IEC61968/Metering/EndDevice.py
+++ b/CIM15/IEC61968/Metering/EndDevice.py
@@ -203,7 +203,8 @@ class EndDevice(AssetContainer):
         for obj in EndDeviceGroups:
             if self not in obj._EndDevices:
                 obj._EndDevices.append(self)
-            self._EndDeviceGroups.append(obj)
+            if obj not in self._EndDeviceGroups:
+                self._EndDeviceGroups.append(obj)
 
     def removeEndDeviceGroups(self, *EndDeviceGroups):
         for obj in EndDeviceGroups:
diff --git a/CIM15/IEC61968/Metering/EndDeviceGroup.py b/CIM15/IEC61968/Metering/EndDeviceGroup.py
index 04a3301..ad4bd34 100644
--- a/CIM15/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM15/IEC61968/Metering/EndDeviceGroup.py
@@ -94,7 +94,8 @@ class EndDeviceGroup(IdentifiedObject):
         for obj in EndDevices:
             if self not in obj._EndDeviceGroups:
                 obj._EndDeviceGroups.append(self)
-            self._EndDevices.append(obj)
+            if obj not in self._EndDevices:
+                self._EndDevices.append(obj)
 
     def removeEndDevices(self, *EndDevices):
         for obj in EndDevices:
diff --git a/CIM15/IEC61968/Metering/IntervalBlock.py b/CIM15/IEC61968/Metering/IntervalBlock.py
index 6953b30..5a9edf3 100644
--- a/CIM15/IEC61968/Metering/IntervalBlock.py
+++ b/CIM15/IEC61968/Metering/IntervalBlock.py
@@ -90,7 +90,8 @@ class IntervalBlock(Element):
         for obj in IntervalReadings:
             if self not in obj._IntervalBlocks:
                 obj._IntervalBlocks.append(self)
-            self._IntervalReadings.append(obj)
+            if obj not in self._IntervalReadings:
+                self._IntervalReadings.append(obj)
 
     def removeIntervalReadings(self, *IntervalReadings):
         for obj in IntervalReadings:
diff --git a/CIM15/IEC61968/Metering/IntervalReading.py b/CIM15/IEC61968/Metering/IntervalReading.py
index 43b30e5..d8a1f6e 100644
--- a/CIM15/IEC61968/Metering/IntervalReading.py
+++ b/CIM15/IEC61968/Metering/IntervalReading.py
@@ -69,7 +69,8 @@ class IntervalReading(MeasurementValue):
         for obj in IntervalBlocks:
             if self not in obj._IntervalReadings:
                 obj._IntervalReadings.append(self)
-            self._IntervalBlocks.append(obj)
+            if obj not in self._IntervalBlocks:
+                self._IntervalBlocks.append(obj)
 
     def removeIntervalBlocks(self, *IntervalBlocks):
         for obj in IntervalBlocks:
diff --git a/CIM15/IEC61968/Metering/MeterReading.py b/CIM15/IEC61968/Metering/MeterReading.py
index d5f7b74..0350e21 100644
--- a/CIM15/IEC61968/Metering/MeterReading.py
+++ b/CIM15/IEC61968/Metering/MeterReading.py
@@ -125,7 +125,8 @@ class MeterReading(IdentifiedObject):
         for obj in Readings:
             if self not in obj._MeterReadings:
                 obj._MeterReadings.append(self)
-            self._Readings.append(obj)
+            if obj not in self._Readings:
+                self._Readings.append(obj)
 
     def removeReadings(self, *Readings):
         for obj in Readings:
diff --git a/CIM15/IEC61968/Metering/Reading.py b/CIM15/IEC61968/Metering/Reading.py
index 8613187..a221659 100644
--- a/CIM15/IEC61968/Metering/Reading.py
+++ b/CIM15/IEC61968/Metering/Reading.py
@@ -90,7 +90,8 @@ class Reading(MeasurementValue):
         for obj in MeterReadings:
             if self not in obj._Readings:
                 obj._Readings.append(self)
-            self._MeterReadings.append(obj)
+            if obj not in self._MeterReadings:
+                self._MeterReadings.append(obj)
 
     def removeMeterReadings(self, *MeterReadings):
         for obj in MeterReadings:
diff --git a/CIM15/IEC61968/Metering/SDPLocation.py b/CIM15/IEC61968/Metering/SDPLocation.py
index 7e7e223..9ac0aea 100644
--- a/CIM15/IEC61968/Metering/SDPLocation.py
+++ b/CIM15/IEC61968/Metering/SDPLocation.py
@@ -77,7 +77,8 @@ class SDPLocation(Location):
         for obj in ServiceDeliveryPoints:
             if self not in obj._SDPLocations:
                 obj._SDPLocations.append(self)
-            self._ServiceDeliveryPoints.append(obj)
+            if obj not in self._ServiceDeliveryPoints:
+                self._ServiceDeliveryPoints.append(obj)
 
     def removeServiceDeliveryPoints(self, *ServiceDeliveryPoints):
         for obj in ServiceDeliveryPoints:
diff --git a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
index 30282e6..268490b 100644
--- a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -137,7 +137,8 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for obj in SDPLocations:
             if self not in obj._ServiceDeliveryPoints:
                 obj._ServiceDeliveryPoints.append(self)
-            self._SDPLocations.append(obj)
+            if obj not in self._SDPLocations:
+                self._SDPLocations.append(obj)
 
     def removeSDPLocations(self, *SDPLocations):
         for obj in SDPLocations:
@@ -241,7 +242,8 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for obj in PricingStructures:
             if self not in obj._ServiceDeliveryPoints:
                 obj._ServiceDeliveryPoints.append(self)
-            self._PricingStructures.append(obj)
+            if obj not in self._PricingStructures:
+                self._PricingStructures.append(obj)
 
     def removePricingStructures(self, *PricingStructures):
         for obj in PricingStructures:
diff --git a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
index 2ab6232..a293cc5 100644
--- a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -110,7 +110,8 @@ class AuxiliaryAccount(Document):
         for obj in Charges:
             if self not in obj._AuxiliaryAccounts:
                 obj._AuxiliaryAccounts.append(self)
-            self._Charges.append(obj)
+            if obj not in self._Charges:
+                self._Charges.append(obj)
 
     def removeCharges(self, *Charges):
         for obj in Charges:
diff --git a/CIM15/IEC61968/PaymentMetering/Charge.py b/CIM15/IEC61968/PaymentMetering/Charge.py
index befc98f..4813c06 100644
--- a/CIM15/IEC61968/PaymentMetering/Charge.py
+++ b/CIM15/IEC61968/PaymentMetering/Charge.py
@@ -88,7 +88,8 @@ class Charge(IdentifiedObject):
         for obj in ConsumptionTariffIntervals:
             if self not in obj._Charges:
                 obj._Charges.append(self)
-            self._ConsumptionTariffIntervals.append(obj)
+            if obj not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(obj)
 
     def removeConsumptionTariffIntervals(self, *ConsumptionTariffIntervals):
         for obj in ConsumptionTariffIntervals:
@@ -116,7 +117,8 @@ class Charge(IdentifiedObject):
         for obj in TimeTariffIntervals:
             if self not in obj._Charges:
                 obj._Charges.append(self)
-            self._TimeTariffIntervals.append(obj)
+            if obj not in self._TimeTariffIntervals:
+                self._TimeTariffIntervals.append(obj)
 
     def removeTimeTariffIntervals(self, *TimeTariffIntervals):
         for obj in TimeTariffIntervals:
@@ -144,7 +146,8 @@ class Charge(IdentifiedObject):
         for obj in AuxiliaryAccounts:
             if self not in obj._Charges:
                 obj._Charges.append(self)
-            self._AuxiliaryAccounts.append(obj)
+            if obj not in self._AuxiliaryAccounts:
+                self._AuxiliaryAccounts.append(obj)
 
     def removeAuxiliaryAccounts(self, *AuxiliaryAccounts):
         for obj in AuxiliaryAccounts:
diff --git a/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py b/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
index adaf845..2c7ef29 100644
--- a/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
+++ b/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
@@ -77,7 +77,8 @@ class ConsumptionTariffInterval(Element):
         for obj in Charges:
             if self not in obj._ConsumptionTariffIntervals:
                 obj._ConsumptionTariffIntervals.append(self)
-            self._Charges.append(obj)
+            if obj not in self._Charges:
+                self._Charges.append(obj)
 
     def removeCharges(self, *Charges):
         for obj in Charges:
@@ -105,7 +106,8 @@ class ConsumptionTariffInterval(Element):
         for obj in TariffProfiles:
             if self not in obj._ConsumptionTariffIntervals:
                 obj._ConsumptionTariffIntervals.append(self)
-            self._TariffProfiles.append(obj)
+            if obj not in self._TariffProfiles:
+                self._TariffProfiles.append(obj)
 
     def removeTariffProfiles(self, *TariffProfiles):
         for obj in TariffProfiles:
@@ -133,7 +135,8 @@ class ConsumptionTariffInterval(Element):
         for obj in TouTariffIntervals:
             if self not in obj._ConsumptionTariffIntervals:
                 obj._ConsumptionTariffIntervals.append(self)
-            self._TouTariffIntervals.append(obj)
+            if obj not in self._TouTariffIntervals:
+                self._TouTariffIntervals.append(obj)
 
     def removeTouTariffIntervals(self, *TouTariffIntervals):
         for obj in TouTariffIntervals:
diff --git a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
index b580e74..0eecb2d 100644
--- a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
@@ -94,7 +94,8 @@ class MerchantAccount(Document):
         for obj in Transactors:
             if self not in obj._MerchantAccounts:
                 obj._MerchantAccounts.append(self)
-            self._Transactors.append(obj)
+            if obj not in self._Transactors:
+                self._Transactors.append(obj)
 
     def removeTransactors(self, *Transactors):
         for obj in Transactors:
diff --git a/CIM15/IEC61968/PaymentMetering/TariffProfile.py b/CIM15/IEC61968/PaymentMetering/TariffProfile.py
index 98c3528..1bc22ad 100644
--- a/CIM15/IEC61968/PaymentMetering/TariffProfile.py
+++ b/CIM15/IEC61968/PaymentMetering/TariffProfile.py
@@ -73,7 +73,8 @@ class TariffProfile(Document):
         for obj in Tariffs:
             if self not in obj._TariffProfiles:
                 obj._TariffProfiles.append(self)
-            self._Tariffs.append(obj)
+            if obj not in self._Tariffs:
+                self._Tariffs.append(obj)
 
     def removeTariffs(self, *Tariffs):
         for obj in Tariffs:
@@ -101,7 +102,8 @@ class TariffProfile(Document):
         for obj in ConsumptionTariffIntervals:
             if self not in obj._TariffProfiles:
                 obj._TariffProfiles.append(self)
-            self._ConsumptionTariffIntervals.append(obj)
+            if obj not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(obj)
 
     def removeConsumptionTariffIntervals(self, *ConsumptionTariffIntervals):
         for obj in ConsumptionTariffIntervals:
@@ -129,7 +131,8 @@ class TariffProfile(Document):
         for obj in TimeTariffIntervals:
             if self not in obj._TariffProfiles:
                 obj._TariffProfiles.append(self)
-            self._TimeTariffIntervals.append(obj)
+            if obj not in self._TimeTariffIntervals:
+                self._TimeTariffIntervals.append(obj)
 
     def removeTimeTariffIntervals(self, *TimeTariffIntervals):
         for obj in TimeTariffIntervals:
diff --git a/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py b/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
index a541452..33267a8 100644
--- a/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
+++ b/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
@@ -77,7 +77,8 @@ class TimeTariffInterval(Element):
         for obj in ConsumptionTariffIntervals:
             if self not in obj._TouTariffIntervals:
                 obj._TouTariffIntervals.append(self)
-            self._ConsumptionTariffIntervals.append(obj)
+            if obj not in self._ConsumptionTariffIntervals:
+                self._ConsumptionTariffIntervals.append(obj)
 
     def removeConsumptionTariffIntervals(self, *ConsumptionTariffIntervals):
         for obj in ConsumptionTariffIntervals:
@@ -105,7 +106,8 @@ class TimeTariffInterval(Element):
         for obj in TariffProfiles:
             if self not in obj._TimeTariffIntervals:
                 obj._TimeTariffIntervals.append(self)
-            self._TariffProfiles.append(obj)
+            if obj not in self._TariffProfiles:
+                self._TariffProfiles.append(obj)
 
     def removeTariffProfiles(self, *TariffProfiles):
         for obj in TariffProfiles:
@@ -133,7 +135,8 @@ class TimeTariffInterval(Element):
         for obj in Charges:
             if self not in obj._TimeTariffIntervals:
                 obj._TimeTariffIntervals.append(self)
-            self._Charges.append(obj)
+            if obj not in self._Charges:
+                self._Charges.append(obj)
 
     def removeCharges(self, *Charges):
         for obj in Charges:
diff --git a/CIM15/IEC61968/PaymentMetering/Transactor.py b/CIM15/IEC61968/PaymentMetering/Transactor.py
index afd152c..94ba51f 100644
--- a/CIM15/IEC61968/PaymentMetering/Transactor.py
+++ b/CIM15/IEC61968/PaymentMetering/Transactor.py
@@ -61,7 +61,8 @@ class Transactor(IdentifiedObject):
         for obj in MerchantAccounts:
             if self not in obj._Transactors:
                 obj._Transactors.append(self)
-            self._MerchantAccounts.append(obj)
+            if obj not in self._MerchantAccounts:
+                self._MerchantAccounts.append(obj)
 
     def removeMerchantAccounts(self, *MerchantAccounts):
         for obj in MerchantAccounts:
diff --git a/CIM15/IEC61968/Work/Work.py b/CIM15/IEC61968/Work/Work.py
index c15cb41..480597e 100644
--- a/CIM15/IEC61968/Work/Work.py
+++ b/CIM15/IEC61968/Work/Work.py
@@ -128,7 +128,8 @@ class Work(Document):
         for obj in WorkCostDetails:
             if self not in obj._Works:
                 obj._Works.append(self)
-            self._WorkCostDetails.append(obj)
+            if obj not in self._WorkCostDetails:
+                self._WorkCostDetails.append(obj)
 
     def removeWorkCostDetails(self, *WorkCostDetails):
         for obj in WorkCostDetails:
@@ -276,7 +277,8 @@ class Work(Document):
         for obj in Customers:
             if self not in obj._Works:
                 obj._Works.append(self)
-            self._Customers.append(obj)
+            if obj not in self._Customers:
+                self._Customers.append(obj)
 
     def removeCustomers(self, *Customers):
         for obj in Customers:
diff --git a/CIM15/IEC61970/Core/ConductingEquipment.py b/CIM15/IEC61970/Core/ConductingEquipment.py
index be0dc06..3f99ab4 100644
--- a/CIM15/IEC61970/Core/ConductingEquipment.py
+++ b/CIM15/IEC61970/Core/ConductingEquipment.py
@@ -119,7 +119,8 @@ class ConductingEquipment(Equipment):
         for obj in ProtectionEquipments:
             if self not in obj._ConductingEquipments:
                 obj._ConductingEquipments.append(self)
-            self._ProtectionEquipments.append(obj)
+            if obj not in self._ProtectionEquipments:
+                self._ProtectionEquipments.append(obj)
 
     def removeProtectionEquipments(self, *ProtectionEquipments):
         for obj in ProtectionEquipments:
diff --git a/CIM15/IEC61970/Core/Equipment.py b/CIM15/IEC61970/Core/Equipment.py
index bd3372a..a5d839f 100644
--- a/CIM15/IEC61970/Core/Equipment.py
+++ b/CIM15/IEC61970/Core/Equipment.py
@@ -102,7 +102,8 @@ class Equipment(PowerSystemResource):
         for obj in CustomerAgreements:
             if self not in obj._Equipments:
                 obj._Equipments.append(self)
-            self._CustomerAgreements.append(obj)
+            if obj not in self._CustomerAgreements:
+                self._CustomerAgreements.append(obj)
 
     def removeCustomerAgreements(self, *CustomerAgreements):
         for obj in CustomerAgreements:
diff --git a/CIM15/IEC61970/Core/PowerSystemResource.py b/CIM15/IEC61970/Core/PowerSystemResource.py
index 62a5256..d6fc127 100644
--- a/CIM15/IEC61970/Core/PowerSystemResource.py
+++ b/CIM15/IEC61970/Core/PowerSystemResource.py
@@ -136,7 +136,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in ScheduleSteps:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._ScheduleSteps.append(obj)
+            if obj not in self._ScheduleSteps:
+                self._ScheduleSteps.append(obj)
 
     def removeScheduleSteps(self, *ScheduleSteps):
         for obj in ScheduleSteps:
@@ -224,7 +225,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in PsrLists:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._PsrLists.append(obj)
+            if obj not in self._PsrLists:
+                self._PsrLists.append(obj)
 
     def removePsrLists(self, *PsrLists):
         for obj in PsrLists:
@@ -273,7 +275,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in ReportingGroup:
             if self not in obj._PowerSystemResource:
                 obj._PowerSystemResource.append(self)
-            self._ReportingGroup.append(obj)
+            if obj not in self._ReportingGroup:
+                self._ReportingGroup.append(obj)
 
     def removeReportingGroup(self, *ReportingGroup):
         for obj in ReportingGroup:
@@ -318,7 +321,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in Assets:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
@@ -403,7 +407,8 @@ class PowerSystemResource(IdentifiedObject):
         for obj in NetworkDataSets:
             if self not in obj._PowerSystemResources:
                 obj._PowerSystemResources.append(self)
-            self._NetworkDataSets.append(obj)
+            if obj not in self._NetworkDataSets:
+                self._NetworkDataSets.append(obj)
 
     def removeNetworkDataSets(self, *NetworkDataSets):
         for obj in NetworkDataSets:
diff --git a/CIM15/IEC61970/Core/PsrList.py b/CIM15/IEC61970/Core/PsrList.py
index d73eda3..150d38d 100644
--- a/CIM15/IEC61970/Core/PsrList.py
+++ b/CIM15/IEC61970/Core/PsrList.py
@@ -64,7 +64,8 @@ class PsrList(IdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._PsrLists:
                 obj._PsrLists.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
diff --git a/CIM15/IEC61970/Core/ReportingGroup.py b/CIM15/IEC61970/Core/ReportingGroup.py
index 8f54256..713ad80 100644
--- a/CIM15/IEC61970/Core/ReportingGroup.py
+++ b/CIM15/IEC61970/Core/ReportingGroup.py
@@ -132,7 +132,8 @@ class ReportingGroup(IdentifiedObject):
         for obj in PowerSystemResource:
             if self not in obj._ReportingGroup:
                 obj._ReportingGroup.append(self)
-            self._PowerSystemResource.append(obj)
+            if obj not in self._PowerSystemResource:
+                self._PowerSystemResource.append(obj)
 
     def removePowerSystemResource(self, *PowerSystemResource):
         for obj in PowerSystemResource:
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py b/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
index 0d8b1d7..ccf8bbd 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
@@ -65,7 +65,8 @@ class PrimeMover(PowerSystemResource):
         for obj in SynchronousMachines:
             if self not in obj._PrimeMovers:
                 obj._PrimeMovers.append(self)
-            self._SynchronousMachines.append(obj)
+            if obj not in self._SynchronousMachines:
+                self._SynchronousMachines.append(obj)
 
     def removeSynchronousMachines(self, *SynchronousMachines):
         for obj in SynchronousMachines:
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py b/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
index e451a36..020901c 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
@@ -65,7 +65,8 @@ class SteamSupply(PowerSystemResource):
         for obj in SteamTurbines:
             if self not in obj._SteamSupplys:
                 obj._SteamSupplys.append(self)
-            self._SteamTurbines.append(obj)
+            if obj not in self._SteamTurbines:
+                self._SteamTurbines.append(obj)
 
     def removeSteamTurbines(self, *SteamTurbines):
         for obj in SteamTurbines:
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py b/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
index dc18a95..cbc0bf6 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
@@ -109,7 +109,8 @@ class SteamTurbine(PrimeMover):
         for obj in SteamSupplys:
             if self not in obj._SteamTurbines:
                 obj._SteamTurbines.append(self)
-            self._SteamSupplys.append(obj)
+            if obj not in self._SteamSupplys:
+                self._SteamSupplys.append(obj)
 
     def removeSteamSupplys(self, *SteamSupplys):
         for obj in SteamSupplys:
diff --git a/CIM15/IEC61970/Graphics/DiagramObject.py b/CIM15/IEC61970/Graphics/DiagramObject.py
index 05c3ad1..6a4f6d0 100644
--- a/CIM15/IEC61970/Graphics/DiagramObject.py
+++ b/CIM15/IEC61970/Graphics/DiagramObject.py
@@ -97,7 +97,8 @@ class DiagramObject(IdentifiedObject):
         for obj in VisibilityLayers:
             if self not in obj._DiagramObjects:
                 obj._DiagramObjects.append(self)
-            self._VisibilityLayers.append(obj)
+            if obj not in self._VisibilityLayers:
+                self._VisibilityLayers.append(obj)
 
     def removeVisibilityLayers(self, *VisibilityLayers):
         for obj in VisibilityLayers:
diff --git a/CIM15/IEC61970/Graphics/VisibilityLayer.py b/CIM15/IEC61970/Graphics/VisibilityLayer.py
index 0260c39..ae2f1bf 100644
--- a/CIM15/IEC61970/Graphics/VisibilityLayer.py
+++ b/CIM15/IEC61970/Graphics/VisibilityLayer.py
@@ -65,7 +65,8 @@ class VisibilityLayer(IdentifiedObject):
         for obj in DiagramObjects:
             if self not in obj._VisibilityLayers:
                 obj._VisibilityLayers.append(self)
-            self._DiagramObjects.append(obj)
+            if obj not in self._DiagramObjects:
+                self._DiagramObjects.append(obj)
 
     def removeDiagramObjects(self, *DiagramObjects):
         for obj in DiagramObjects:
diff --git a/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py b/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
index fbb850a..59aef2d 100644
--- a/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
+++ b/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
@@ -80,7 +80,8 @@ class AssetPropertyCurve(Curve):
         for obj in Assets:
             if self not in obj._AssetPropertyCurves:
                 obj._AssetPropertyCurves.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
index 4c84493..f8e2904 100644
--- a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
@@ -128,7 +128,8 @@ class DimensionsInfo(IdentifiedObject):
         for obj in Specifications:
             if self not in obj._DimensionsInfos:
                 obj._DimensionsInfos.append(self)
-            self._Specifications.append(obj)
+            if obj not in self._Specifications:
+                self._Specifications.append(obj)
 
     def removeSpecifications(self, *Specifications):
         for obj in Specifications:
diff --git a/CIM15/IEC61970/Informative/InfAssets/Medium.py b/CIM15/IEC61970/Informative/InfAssets/Medium.py
index 4d557ba..c4523c5 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Medium.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Medium.py
@@ -88,7 +88,8 @@ class Medium(IdentifiedObject):
         for obj in Assets:
             if self not in obj._Mediums:
                 obj._Mediums.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py b/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
index 418ca8b..cb56c2b 100644
--- a/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
+++ b/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
@@ -64,7 +64,8 @@ class MountingConnection(IdentifiedObject):
         for obj in StructureInfos:
             if self not in obj._MountingConnections:
                 obj._MountingConnections.append(self)
-            self._StructureInfos.append(obj)
+            if obj not in self._StructureInfos:
+                self._StructureInfos.append(obj)
 
     def removeStructureInfos(self, *StructureInfos):
         for obj in StructureInfos:
@@ -91,7 +92,8 @@ class MountingConnection(IdentifiedObject):
         for obj in MountingPoints:
             if self not in obj._Connections:
                 obj._Connections.append(self)
-            self._MountingPoints.append(obj)
+            if obj not in self._MountingPoints:
+                self._MountingPoints.append(obj)
 
     def removeMountingPoints(self, *MountingPoints):
         for obj in MountingPoints:
diff --git a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
index ae5d203..4430a80 100644
--- a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
+++ b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
@@ -76,7 +76,8 @@ class MountingPoint(IdentifiedObject):
         for obj in Connections:
             if self not in obj._MountingPoints:
                 obj._MountingPoints.append(self)
-            self._Connections.append(obj)
+            if obj not in self._Connections:
+                self._Connections.append(obj)
 
     def removeConnections(self, *Connections):
         for obj in Connections:
diff --git a/CIM15/IEC61970/Informative/InfAssets/PowerRating.py b/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
index d98ee7f..a5c4c69 100644
--- a/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
+++ b/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
@@ -72,7 +72,8 @@ class PowerRating(IdentifiedObject):
         for obj in TransformerAssets:
             if self not in obj._PowerRatings:
                 obj._PowerRatings.append(self)
-            self._TransformerAssets.append(obj)
+            if obj not in self._TransformerAssets:
+                self._TransformerAssets.append(obj)
 
     def removeTransformerAssets(self, *TransformerAssets):
         for obj in TransformerAssets:
diff --git a/CIM15/IEC61970/Informative/InfAssets/Procedure.py b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
index 7615ab4..e82cfd6 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Procedure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
@@ -129,7 +129,8 @@ class Procedure(Document):
         for obj in CompatibleUnits:
             if self not in obj._Procedures:
                 obj._Procedures.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
@@ -156,7 +157,8 @@ class Procedure(Document):
         for obj in Limits:
             if self not in obj._Procedures:
                 obj._Procedures.append(self)
-            self._Limits.append(obj)
+            if obj not in self._Limits:
+                self._Limits.append(obj)
 
     def removeLimits(self, *Limits):
         for obj in Limits:
diff --git a/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py b/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
index 00036dd..3c35a6a 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
@@ -77,7 +77,8 @@ class ProcedureDataSet(Document):
         for obj in Properties:
             if self not in obj._ProcedureDataSets:
                 obj._ProcedureDataSets.append(self)
-            self._Properties.append(obj)
+            if obj not in self._Properties:
+                self._Properties.append(obj)
 
     def removeProperties(self, *Properties):
         for obj in Properties:
@@ -104,7 +105,8 @@ class ProcedureDataSet(Document):
         for obj in TransformerObservations:
             if self not in obj._ProcedureDataSets:
                 obj._ProcedureDataSets.append(self)
-            self._TransformerObservations.append(obj)
+            if obj not in self._TransformerObservations:
+                self._TransformerObservations.append(obj)
 
     def removeTransformerObservations(self, *TransformerObservations):
         for obj in TransformerObservations:
@@ -147,7 +149,8 @@ class ProcedureDataSet(Document):
         for obj in MeasurementValues:
             if self not in obj._ProcedureDataSets:
                 obj._ProcedureDataSets.append(self)
-            self._MeasurementValues.append(obj)
+            if obj not in self._MeasurementValues:
+                self._MeasurementValues.append(obj)
 
     def removeMeasurementValues(self, *MeasurementValues):
         for obj in MeasurementValues:
diff --git a/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py b/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
index 84e3553..9eceba4 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
@@ -88,7 +88,8 @@ class ReliabilityInfo(IdentifiedObject):
         for obj in Assets:
             if self not in obj._ReliabilityInfos:
                 obj._ReliabilityInfos.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM15/IEC61970/Informative/InfAssets/Specification.py b/CIM15/IEC61970/Informative/InfAssets/Specification.py
index 9b3152c..3ae9391 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Specification.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Specification.py
@@ -165,7 +165,8 @@ class Specification(Document):
         for obj in DimensionsInfos:
             if self not in obj._Specifications:
                 obj._Specifications.append(self)
-            self._DimensionsInfos.append(obj)
+            if obj not in self._DimensionsInfos:
+                self._DimensionsInfos.append(obj)
 
     def removeDimensionsInfos(self, *DimensionsInfos):
         for obj in DimensionsInfos:
@@ -213,7 +214,8 @@ class Specification(Document):
         for obj in QualificationRequirements:
             if self not in obj._Specifications:
                 obj._Specifications.append(self)
-            self._QualificationRequirements.append(obj)
+            if obj not in self._QualificationRequirements:
+                self._QualificationRequirements.append(obj)
 
     def removeQualificationRequirements(self, *QualificationRequirements):
         for obj in QualificationRequirements:
diff --git a/CIM15/IEC61970/Informative/InfAssets/Structure.py b/CIM15/IEC61970/Informative/InfAssets/Structure.py
index 21eae0d..9f082ca 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Structure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Structure.py
@@ -112,7 +112,8 @@ class Structure(AssetContainer):
         for obj in MountingConnections:
             if self not in obj._StructureInfos:
                 obj._StructureInfos.append(self)
-            self._MountingConnections.append(obj)
+            if obj not in self._MountingConnections:
+                self._MountingConnections.append(obj)
 
     def removeMountingConnections(self, *MountingConnections):
         for obj in MountingConnections:
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
index 61f21a4..c23da63 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
@@ -76,7 +76,8 @@ class TransformerAsset(Asset):
         for obj in PowerRatings:
             if self not in obj._TransformerAssets:
                 obj._TransformerAssets.append(self)
-            self._PowerRatings.append(obj)
+            if obj not in self._PowerRatings:
+                self._PowerRatings.append(obj)
 
     def removePowerRatings(self, *PowerRatings):
         for obj in PowerRatings:
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
index 8e5c563..6e75d02 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
@@ -151,7 +151,8 @@ class TransformerObservation(IdentifiedObject):
         for obj in ProcedureDataSets:
             if self not in obj._TransformerObservations:
                 obj._TransformerObservations.append(self)
-            self._ProcedureDataSets.append(obj)
+            if obj not in self._ProcedureDataSets:
+                self._ProcedureDataSets.append(obj)
 
     def removeProcedureDataSets(self, *ProcedureDataSets):
         for obj in ProcedureDataSets:
diff --git a/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py b/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
index e24ba13..6a58131 100644
--- a/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
+++ b/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
@@ -67,7 +67,8 @@ class BusinessRole(IdentifiedObject):
         for obj in Organisations:
             if self not in obj._BusinessRoles:
                 obj._BusinessRoles.append(self)
-            self._Organisations.append(obj)
+            if obj not in self._Organisations:
+                self._Organisations.append(obj)
 
     def removeOrganisations(self, *Organisations):
         for obj in Organisations:
diff --git a/CIM15/IEC61970/Informative/InfCommon/Craft.py b/CIM15/IEC61970/Informative/InfCommon/Craft.py
index 41e4f6a..9bf52ae 100644
--- a/CIM15/IEC61970/Informative/InfCommon/Craft.py
+++ b/CIM15/IEC61970/Informative/InfCommon/Craft.py
@@ -75,7 +75,8 @@ class Craft(IdentifiedObject):
         for obj in Skills:
             if self not in obj._Crafts:
                 obj._Crafts.append(self)
-            self._Skills.append(obj)
+            if obj not in self._Skills:
+                self._Skills.append(obj)
 
     def removeSkills(self, *Skills):
         for obj in Skills:
@@ -102,7 +103,8 @@ class Craft(IdentifiedObject):
         for obj in ErpPersons:
             if self not in obj._Crafts:
                 obj._Crafts.append(self)
-            self._ErpPersons.append(obj)
+            if obj not in self._ErpPersons:
+                self._ErpPersons.append(obj)
 
     def removeErpPersons(self, *ErpPersons):
         for obj in ErpPersons:
@@ -131,7 +133,8 @@ class Craft(IdentifiedObject):
         for obj in Capabilities:
             if self not in obj._Crafts:
                 obj._Crafts.append(self)
-            self._Capabilities.append(obj)
+            if obj not in self._Capabilities:
+                self._Capabilities.append(obj)
 
     def removeCapabilities(self, *Capabilities):
         for obj in Capabilities:
diff --git a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
index 42a64ec..ed35230 100644
--- a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
+++ b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
@@ -96,7 +96,8 @@ class ScheduleParameterInfo(IdentifiedObject):
         for obj in Documents:
             if self not in obj._ScheduleParameterInfos:
                 obj._ScheduleParameterInfos.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
diff --git a/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py b/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
index 66181b5..a0c2daf 100644
--- a/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
+++ b/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
@@ -152,7 +152,8 @@ class ScheduledEvent(IdentifiedObject):
         for obj in Assets:
             if self not in obj._ScheduledEvents:
                 obj._ScheduledEvents.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
diff --git a/CIM15/IEC61970/Informative/InfCommon/Skill.py b/CIM15/IEC61970/Informative/InfCommon/Skill.py
index ae6fd26..2f557bf 100644
--- a/CIM15/IEC61970/Informative/InfCommon/Skill.py
+++ b/CIM15/IEC61970/Informative/InfCommon/Skill.py
@@ -79,7 +79,8 @@ class Skill(Document):
         for obj in Crafts:
             if self not in obj._Skills:
                 obj._Skills.append(self)
-            self._Crafts.append(obj)
+            if obj not in self._Crafts:
+                self._Crafts.append(obj)
 
     def removeCrafts(self, *Crafts):
         for obj in Crafts:
@@ -122,7 +123,8 @@ class Skill(Document):
         for obj in QualificationRequirements:
             if self not in obj._Skills:
                 obj._Skills.append(self)
-            self._QualificationRequirements.append(obj)
+            if obj not in self._QualificationRequirements:
+                self._QualificationRequirements.append(obj)
 
     def removeQualificationRequirements(self, *QualificationRequirements):
         for obj in QualificationRequirements:
diff --git a/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py b/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
index 9cd0090..db16d41 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
@@ -96,7 +96,8 @@ class CustomerBillingInfo(Document):
         for obj in ErpInvoiceLineItems:
             if self not in obj._CustomerBillingInfos:
                 obj._CustomerBillingInfos.append(self)
-            self._ErpInvoiceLineItems.append(obj)
+            if obj not in self._ErpInvoiceLineItems:
+                self._ErpInvoiceLineItems.append(obj)
 
     def removeErpInvoiceLineItems(self, *ErpInvoiceLineItems):
         for obj in ErpInvoiceLineItems:
diff --git a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
index fe6c063..92fddb6 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
@@ -132,7 +132,8 @@ class WorkBillingInfo(Document):
         for obj in ErpLineItems:
             if self not in obj._WorkBillingInfos:
                 obj._WorkBillingInfos.append(self)
-            self._ErpLineItems.append(obj)
+            if obj not in self._ErpLineItems:
+                self._ErpLineItems.append(obj)
 
     def removeErpLineItems(self, *ErpLineItems):
         for obj in ErpLineItems:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
index d710816..72c9ef9 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
@@ -139,7 +139,8 @@ class ErpInvoiceLineItem(Document):
         for obj in ErpPayments:
             if self not in obj._ErpInvoiceLineItems:
                 obj._ErpInvoiceLineItems.append(self)
-            self._ErpPayments.append(obj)
+            if obj not in self._ErpPayments:
+                self._ErpPayments.append(obj)
 
     def removeErpPayments(self, *ErpPayments):
         for obj in ErpPayments:
@@ -182,7 +183,8 @@ class ErpInvoiceLineItem(Document):
         for obj in WorkBillingInfos:
             if self not in obj._ErpLineItems:
                 obj._ErpLineItems.append(self)
-            self._WorkBillingInfos.append(obj)
+            if obj not in self._WorkBillingInfos:
+                self._WorkBillingInfos.append(obj)
 
     def removeWorkBillingInfos(self, *WorkBillingInfos):
         for obj in WorkBillingInfos:
@@ -224,7 +226,8 @@ class ErpInvoiceLineItem(Document):
         for obj in UserAttributes:
             if self not in obj._ErpInvoiceLineItems:
                 obj._ErpInvoiceLineItems.append(self)
-            self._UserAttributes.append(obj)
+            if obj not in self._UserAttributes:
+                self._UserAttributes.append(obj)
 
     def removeUserAttributes(self, *UserAttributes):
         for obj in UserAttributes:
@@ -321,7 +324,8 @@ class ErpInvoiceLineItem(Document):
         for obj in CustomerBillingInfos:
             if self not in obj._ErpInvoiceLineItems:
                 obj._ErpInvoiceLineItems.append(self)
-            self._CustomerBillingInfos.append(obj)
+            if obj not in self._CustomerBillingInfos:
+                self._CustomerBillingInfos.append(obj)
 
     def removeCustomerBillingInfos(self, *CustomerBillingInfos):
         for obj in CustomerBillingInfos:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
index 78636e9..83780c8 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
@@ -105,7 +105,8 @@ class ErpJournalEntry(IdentifiedObject):
         for obj in ErpPayableLineItems:
             if self not in obj._ErpJournalEntries:
                 obj._ErpJournalEntries.append(self)
-            self._ErpPayableLineItems.append(obj)
+            if obj not in self._ErpPayableLineItems:
+                self._ErpPayableLineItems.append(obj)
 
     def removeErpPayableLineItems(self, *ErpPayableLineItems):
         for obj in ErpPayableLineItems:
@@ -148,7 +149,8 @@ class ErpJournalEntry(IdentifiedObject):
         for obj in ErpRecLineItems:
             if self not in obj._ErpJournalEntries:
                 obj._ErpJournalEntries.append(self)
-            self._ErpRecLineItems.append(obj)
+            if obj not in self._ErpRecLineItems:
+                self._ErpRecLineItems.append(obj)
 
     def removeErpRecLineItems(self, *ErpRecLineItems):
         for obj in ErpRecLineItems:
@@ -190,7 +192,8 @@ class ErpJournalEntry(IdentifiedObject):
         for obj in CostTypes:
             if self not in obj._ErpJournalEntries:
                 obj._ErpJournalEntries.append(self)
-            self._CostTypes.append(obj)
+            if obj not in self._CostTypes:
+                self._CostTypes.append(obj)
 
     def removeCostTypes(self, *CostTypes):
         for obj in CostTypes:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
index 5e59757..7be2de9 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
@@ -128,7 +128,8 @@ class ErpLedgerEntry(IdentifiedObject):
         for obj in UserAttributes:
             if self not in obj._ErpLedgerEntries:
                 obj._ErpLedgerEntries.append(self)
-            self._UserAttributes.append(obj)
+            if obj not in self._UserAttributes:
+                self._UserAttributes.append(obj)
 
     def removeUserAttributes(self, *UserAttributes):
         for obj in UserAttributes:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
index b4bd65a..d1c9c8b 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
@@ -176,7 +176,8 @@ class ErpOrganisation(Organisation):
         for obj in Crews:
             if self not in obj._Organisations:
                 obj._Organisations.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
@@ -243,7 +244,8 @@ class ErpOrganisation(Organisation):
         for obj in ActivityRecords:
             if self not in obj._Organisations:
                 obj._Organisations.append(self)
-            self._ActivityRecords.append(obj)
+            if obj not in self._ActivityRecords:
+                self._ActivityRecords.append(obj)
 
     def removeActivityRecords(self, *ActivityRecords):
         for obj in ActivityRecords:
@@ -290,7 +292,8 @@ class ErpOrganisation(Organisation):
         for obj in Locations:
             if self not in obj._ErpOrganisations:
                 obj._ErpOrganisations.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
index caf0889..3f7cc7d 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
@@ -64,7 +64,8 @@ class ErpPayable(Document):
         for obj in ContractorItems:
             if self not in obj._ErpPayables:
                 obj._ErpPayables.append(self)
-            self._ContractorItems.append(obj)
+            if obj not in self._ContractorItems:
+                self._ContractorItems.append(obj)
 
     def removeContractorItems(self, *ContractorItems):
         for obj in ContractorItems:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
index b9f5d27..9ed6f43 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
@@ -75,7 +75,8 @@ class ErpPayableLineItem(IdentifiedObject):
         for obj in ErpPayments:
             if self not in obj._ErpPayableLineItems:
                 obj._ErpPayableLineItems.append(self)
-            self._ErpPayments.append(obj)
+            if obj not in self._ErpPayments:
+                self._ErpPayments.append(obj)
 
     def removeErpPayments(self, *ErpPayments):
         for obj in ErpPayments:
@@ -102,7 +103,8 @@ class ErpPayableLineItem(IdentifiedObject):
         for obj in ErpJournalEntries:
             if self not in obj._ErpPayableLineItems:
                 obj._ErpPayableLineItems.append(self)
-            self._ErpJournalEntries.append(obj)
+            if obj not in self._ErpJournalEntries:
+                self._ErpJournalEntries.append(obj)
 
     def removeErpJournalEntries(self, *ErpJournalEntries):
         for obj in ErpJournalEntries:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
index a698689..608ec78 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
@@ -72,7 +72,8 @@ class ErpPayment(Document):
         for obj in ErpRecLineItems:
             if self not in obj._ErpPayments:
                 obj._ErpPayments.append(self)
-            self._ErpRecLineItems.append(obj)
+            if obj not in self._ErpRecLineItems:
+                self._ErpRecLineItems.append(obj)
 
     def removeErpRecLineItems(self, *ErpRecLineItems):
         for obj in ErpRecLineItems:
@@ -99,7 +100,8 @@ class ErpPayment(Document):
         for obj in ErpPayableLineItems:
             if self not in obj._ErpPayments:
                 obj._ErpPayments.append(self)
-            self._ErpPayableLineItems.append(obj)
+            if obj not in self._ErpPayableLineItems:
+                self._ErpPayableLineItems.append(obj)
 
     def removeErpPayableLineItems(self, *ErpPayableLineItems):
         for obj in ErpPayableLineItems:
@@ -126,7 +128,8 @@ class ErpPayment(Document):
         for obj in ErpInvoiceLineItems:
             if self not in obj._ErpPayments:
                 obj._ErpPayments.append(self)
-            self._ErpInvoiceLineItems.append(obj)
+            if obj not in self._ErpInvoiceLineItems:
+                self._ErpInvoiceLineItems.append(obj)
 
     def removeErpInvoiceLineItems(self, *ErpInvoiceLineItems):
         for obj in ErpInvoiceLineItems:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
index 314f5e9..35134d5 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
@@ -204,7 +204,8 @@ class ErpPerson(IdentifiedObject):
         for obj in Appointments:
             if self not in obj._ErpPersons:
                 obj._ErpPersons.append(self)
-            self._Appointments.append(obj)
+            if obj not in self._Appointments:
+                self._Appointments.append(obj)
 
     def removeAppointments(self, *Appointments):
         for obj in Appointments:
@@ -232,7 +233,8 @@ class ErpPerson(IdentifiedObject):
         for obj in Crews:
             if self not in obj._CrewMembers:
                 obj._CrewMembers.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
@@ -259,7 +261,8 @@ class ErpPerson(IdentifiedObject):
         for obj in LaborItems:
             if self not in obj._ErpPersons:
                 obj._ErpPersons.append(self)
-            self._LaborItems.append(obj)
+            if obj not in self._LaborItems:
+                self._LaborItems.append(obj)
 
     def removeLaborItems(self, *LaborItems):
         for obj in LaborItems:
@@ -306,7 +309,8 @@ class ErpPerson(IdentifiedObject):
         for obj in ActivityRecords:
             if self not in obj._ErpPersons:
                 obj._ErpPersons.append(self)
-            self._ActivityRecords.append(obj)
+            if obj not in self._ActivityRecords:
+                self._ActivityRecords.append(obj)
 
     def removeActivityRecords(self, *ActivityRecords):
         for obj in ActivityRecords:
@@ -437,7 +441,8 @@ class ErpPerson(IdentifiedObject):
         for obj in Crafts:
             if self not in obj._ErpPersons:
                 obj._ErpPersons.append(self)
-            self._Crafts.append(obj)
+            if obj not in self._Crafts:
+                self._Crafts.append(obj)
 
     def removeCrafts(self, *Crafts):
         for obj in Crafts:
@@ -480,7 +485,8 @@ class ErpPerson(IdentifiedObject):
         for obj in CallBacks:
             if self not in obj._ErpPersons:
                 obj._ErpPersons.append(self)
-            self._CallBacks.append(obj)
+            if obj not in self._CallBacks:
+                self._CallBacks.append(obj)
 
     def removeCallBacks(self, *CallBacks):
         for obj in CallBacks:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
index ecabac0..75f4129 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
@@ -79,7 +79,8 @@ class ErpRecDelvLineItem(IdentifiedObject):
         for obj in Assets:
             if self not in obj._ErpRecDeliveryItems:
                 obj._ErpRecDeliveryItems.append(self)
-            self._Assets.append(obj)
+            if obj not in self._Assets:
+                self._Assets.append(obj)
 
     def removeAssets(self, *Assets):
         for obj in Assets:
@@ -139,7 +140,8 @@ class ErpRecDelvLineItem(IdentifiedObject):
         for obj in MaterialItems:
             if self not in obj._ErpRecDelvLineItems:
                 obj._ErpRecDelvLineItems.append(self)
-            self._MaterialItems.append(obj)
+            if obj not in self._MaterialItems:
+                self._MaterialItems.append(obj)
 
     def removeMaterialItems(self, *MaterialItems):
         for obj in MaterialItems:
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
index 610278f..48af996 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
@@ -108,7 +108,8 @@ class ErpRecLineItem(IdentifiedObject):
         for obj in ErpPayments:
             if self not in obj._ErpRecLineItems:
                 obj._ErpRecLineItems.append(self)
-            self._ErpPayments.append(obj)
+            if obj not in self._ErpPayments:
+                self._ErpPayments.append(obj)
 
     def removeErpPayments(self, *ErpPayments):
         for obj in ErpPayments:
@@ -135,7 +136,8 @@ class ErpRecLineItem(IdentifiedObject):
         for obj in ErpJournalEntries:
             if self not in obj._ErpRecLineItems:
                 obj._ErpRecLineItems.append(self)
-            self._ErpJournalEntries.append(obj)
+            if obj not in self._ErpJournalEntries:
+                self._ErpJournalEntries.append(obj)
 
     def removeErpJournalEntries(self, *ErpJournalEntries):
         for obj in ErpJournalEntries:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
index e33e01a..643bca2 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
@@ -133,7 +133,8 @@ class Diagram(Document):
         for obj in GmlDiagramObjects:
             if self not in obj._Diagrams:
                 obj._Diagrams.append(self)
-            self._GmlDiagramObjects.append(obj)
+            if obj not in self._GmlDiagramObjects:
+                self._GmlDiagramObjects.append(obj)
 
     def removeGmlDiagramObjects(self, *GmlDiagramObjects):
         for obj in GmlDiagramObjects:
@@ -160,7 +161,8 @@ class Diagram(Document):
         for obj in DesignLocations:
             if self not in obj._Diagrams:
                 obj._Diagrams.append(self)
-            self._DesignLocations.append(obj)
+            if obj not in self._DesignLocations:
+                self._DesignLocations.append(obj)
 
     def removeDesignLocations(self, *DesignLocations):
         for obj in DesignLocations:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
index 3c7027a..7d9a99e 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
@@ -92,7 +92,8 @@ class GmlDiagramObject(IdentifiedObject):
         for obj in GmlSelectors:
             if self not in obj._GmlDiagramObjects:
                 obj._GmlDiagramObjects.append(self)
-            self._GmlSelectors.append(obj)
+            if obj not in self._GmlSelectors:
+                self._GmlSelectors.append(obj)
 
     def removeGmlSelectors(self, *GmlSelectors):
         for obj in GmlSelectors:
@@ -119,7 +120,8 @@ class GmlDiagramObject(IdentifiedObject):
         for obj in Diagrams:
             if self not in obj._GmlDiagramObjects:
                 obj._GmlDiagramObjects.append(self)
-            self._Diagrams.append(obj)
+            if obj not in self._Diagrams:
+                self._Diagrams.append(obj)
 
     def removeDiagrams(self, *Diagrams):
         for obj in Diagrams:
@@ -146,7 +148,8 @@ class GmlDiagramObject(IdentifiedObject):
         for obj in CoordinateSystems:
             if self not in obj._GmlDiagramObjects:
                 obj._GmlDiagramObjects.append(self)
-            self._CoordinateSystems.append(obj)
+            if obj not in self._CoordinateSystems:
+                self._CoordinateSystems.append(obj)
 
     def removeCoordinateSystems(self, *CoordinateSystems):
         for obj in CoordinateSystems:
@@ -233,7 +236,8 @@ class GmlDiagramObject(IdentifiedObject):
         for obj in GmlObservatins:
             if self not in obj._GmlDiagramObjects:
                 obj._GmlDiagramObjects.append(self)
-            self._GmlObservatins.append(obj)
+            if obj not in self._GmlObservatins:
+                self._GmlObservatins.append(obj)
 
     def removeGmlObservatins(self, *GmlObservatins):
         for obj in GmlObservatins:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
index 4e597ba..9bf73a6 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
@@ -124,7 +124,8 @@ class GmlFeatureStyle(IdentifiedObject):
         for obj in GmlSymbols:
             if self not in obj._GmlFeatureStyles:
                 obj._GmlFeatureStyles.append(self)
-            self._GmlSymbols.append(obj)
+            if obj not in self._GmlSymbols:
+                self._GmlSymbols.append(obj)
 
     def removeGmlSymbols(self, *GmlSymbols):
         for obj in GmlSymbols:
@@ -191,7 +192,8 @@ class GmlFeatureStyle(IdentifiedObject):
         for obj in GmlFeatureTypes:
             if self not in obj._GmlFeatureStyles:
                 obj._GmlFeatureStyles.append(self)
-            self._GmlFeatureTypes.append(obj)
+            if obj not in self._GmlFeatureTypes:
+                self._GmlFeatureTypes.append(obj)
 
     def removeGmlFeatureTypes(self, *GmlFeatureTypes):
         for obj in GmlFeatureTypes:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
index b9c83d6..e8a12f1 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
@@ -60,7 +60,8 @@ class GmlFeatureType(IdentifiedObject):
         for obj in GmlFeatureStyles:
             if self not in obj._GmlFeatureTypes:
                 obj._GmlFeatureTypes.append(self)
-            self._GmlFeatureStyles.append(obj)
+            if obj not in self._GmlFeatureStyles:
+                self._GmlFeatureStyles.append(obj)
 
     def removeGmlFeatureStyles(self, *GmlFeatureStyles):
         for obj in GmlFeatureStyles:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
index 8b240d0..a817809 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
@@ -96,7 +96,8 @@ class GmlFill(IdentifiedObject):
         for obj in GmlMarks:
             if self not in obj._GmlFIlls:
                 obj._GmlFIlls.append(self)
-            self._GmlMarks.append(obj)
+            if obj not in self._GmlMarks:
+                self._GmlMarks.append(obj)
 
     def removeGmlMarks(self, *GmlMarks):
         for obj in GmlMarks:
@@ -143,7 +144,8 @@ class GmlFill(IdentifiedObject):
         for obj in GmlSvgParameters:
             if self not in obj._GmlFills:
                 obj._GmlFills.append(self)
-            self._GmlSvgParameters.append(obj)
+            if obj not in self._GmlSvgParameters:
+                self._GmlSvgParameters.append(obj)
 
     def removeGmlSvgParameters(self, *GmlSvgParameters):
         for obj in GmlSvgParameters:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
index 84f02fd..0f78229 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
@@ -108,7 +108,8 @@ class GmlFont(IdentifiedObject):
         for obj in GmlSvgParameters:
             if self not in obj._GmlFonts:
                 obj._GmlFonts.append(self)
-            self._GmlSvgParameters.append(obj)
+            if obj not in self._GmlSvgParameters:
+                self._GmlSvgParameters.append(obj)
 
     def removeGmlSvgParameters(self, *GmlSvgParameters):
         for obj in GmlSvgParameters:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
index 356364b..4b76e78 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
@@ -92,7 +92,8 @@ class GmlGraphic(IdentifiedObject):
         for obj in GmlMarks:
             if self not in obj._GmlGraphics:
                 obj._GmlGraphics.append(self)
-            self._GmlMarks.append(obj)
+            if obj not in self._GmlMarks:
+                self._GmlMarks.append(obj)
 
     def removeGmlMarks(self, *GmlMarks):
         for obj in GmlMarks:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
index 4891a02..e0756ce 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
@@ -72,7 +72,8 @@ class GmlMark(IdentifiedObject):
         for obj in GmlGraphics:
             if self not in obj._GmlMarks:
                 obj._GmlMarks.append(self)
-            self._GmlGraphics.append(obj)
+            if obj not in self._GmlGraphics:
+                self._GmlGraphics.append(obj)
 
     def removeGmlGraphics(self, *GmlGraphics):
         for obj in GmlGraphics:
@@ -99,7 +100,8 @@ class GmlMark(IdentifiedObject):
         for obj in GmlStrokes:
             if self not in obj._GmlMarks:
                 obj._GmlMarks.append(self)
-            self._GmlStrokes.append(obj)
+            if obj not in self._GmlStrokes:
+                self._GmlStrokes.append(obj)
 
     def removeGmlStrokes(self, *GmlStrokes):
         for obj in GmlStrokes:
@@ -126,7 +128,8 @@ class GmlMark(IdentifiedObject):
         for obj in GmlFIlls:
             if self not in obj._GmlMarks:
                 obj._GmlMarks.append(self)
-            self._GmlFIlls.append(obj)
+            if obj not in self._GmlFIlls:
+                self._GmlFIlls.append(obj)
 
     def removeGmlFIlls(self, *GmlFIlls):
         for obj in GmlFIlls:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
index bf3b127..2d8f31b 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
@@ -84,7 +84,8 @@ class GmlObservation(Element):
         for obj in GmlDiagramObjects:
             if self not in obj._GmlObservatins:
                 obj._GmlObservatins.append(self)
-            self._GmlDiagramObjects.append(obj)
+            if obj not in self._GmlDiagramObjects:
+                self._GmlDiagramObjects.append(obj)
 
     def removeGmlDiagramObjects(self, *GmlDiagramObjects):
         for obj in GmlDiagramObjects:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
index 31225af..6b2863a 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
@@ -84,7 +84,8 @@ class GmlSelector(IdentifiedObject):
         for obj in GmlDiagramObjects:
             if self not in obj._GmlSelectors:
                 obj._GmlSelectors.append(self)
-            self._GmlDiagramObjects.append(obj)
+            if obj not in self._GmlDiagramObjects:
+                self._GmlDiagramObjects.append(obj)
 
     def removeGmlDiagramObjects(self, *GmlDiagramObjects):
         for obj in GmlDiagramObjects:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
index 84525f4..018b976 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
@@ -140,7 +140,8 @@ class GmlStroke(IdentifiedObject):
         for obj in GmlMarks:
             if self not in obj._GmlStrokes:
                 obj._GmlStrokes.append(self)
-            self._GmlMarks.append(obj)
+            if obj not in self._GmlMarks:
+                self._GmlMarks.append(obj)
 
     def removeGmlMarks(self, *GmlMarks):
         for obj in GmlMarks:
@@ -167,7 +168,8 @@ class GmlStroke(IdentifiedObject):
         for obj in GmlSvgParameters:
             if self not in obj._GmlStokes:
                 obj._GmlStokes.append(self)
-            self._GmlSvgParameters.append(obj)
+            if obj not in self._GmlSvgParameters:
+                self._GmlSvgParameters.append(obj)
 
     def removeGmlSvgParameters(self, *GmlSvgParameters):
         for obj in GmlSvgParameters:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
index 9867517..dfa7aa9 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
@@ -76,7 +76,8 @@ class GmlSvgParameter(IdentifiedObject):
         for obj in GmlStokes:
             if self not in obj._GmlSvgParameters:
                 obj._GmlSvgParameters.append(self)
-            self._GmlStokes.append(obj)
+            if obj not in self._GmlStokes:
+                self._GmlStokes.append(obj)
 
     def removeGmlStokes(self, *GmlStokes):
         for obj in GmlStokes:
@@ -103,7 +104,8 @@ class GmlSvgParameter(IdentifiedObject):
         for obj in GmlFonts:
             if self not in obj._GmlSvgParameters:
                 obj._GmlSvgParameters.append(self)
-            self._GmlFonts.append(obj)
+            if obj not in self._GmlFonts:
+                self._GmlFonts.append(obj)
 
     def removeGmlFonts(self, *GmlFonts):
         for obj in GmlFonts:
@@ -130,7 +132,8 @@ class GmlSvgParameter(IdentifiedObject):
         for obj in GmlFills:
             if self not in obj._GmlSvgParameters:
                 obj._GmlSvgParameters.append(self)
-            self._GmlFills.append(obj)
+            if obj not in self._GmlFills:
+                self._GmlFills.append(obj)
 
     def removeGmlFills(self, *GmlFills):
         for obj in GmlFills:
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
index 4ee9490..83cb4a3 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
@@ -76,7 +76,8 @@ class GmlSymbol(IdentifiedObject):
         for obj in GmlFeatureStyles:
             if self not in obj._GmlSymbols:
                 obj._GmlSymbols.append(self)
-            self._GmlFeatureStyles.append(obj)
+            if obj not in self._GmlFeatureStyles:
+                self._GmlFeatureStyles.append(obj)
 
     def removeGmlFeatureStyles(self, *GmlFeatureStyles):
         for obj in GmlFeatureStyles:
diff --git a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
index d3cb05f..69f9c36 100644
--- a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
+++ b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
@@ -88,7 +88,8 @@ class LoadMgmtFunction(EndDeviceFunction):
         for obj in Switches:
             if self not in obj._LoadMgmtFunctions:
                 obj._LoadMgmtFunctions.append(self)
-            self._Switches.append(obj)
+            if obj not in self._Switches:
+                self._Switches.append(obj)
 
     def removeSwitches(self, *Switches):
         for obj in Switches:
diff --git a/CIM15/IEC61970/Informative/InfLocations/Hazard.py b/CIM15/IEC61970/Informative/InfLocations/Hazard.py
index 5f7204a..72c3436 100644
--- a/CIM15/IEC61970/Informative/InfLocations/Hazard.py
+++ b/CIM15/IEC61970/Informative/InfLocations/Hazard.py
@@ -68,7 +68,8 @@ class Hazard(IdentifiedObject):
         for obj in Locations:
             if self not in obj._Hazards:
                 obj._Hazards.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
diff --git a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
index 82ba6f7..40b3416 100644
--- a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
+++ b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
@@ -162,7 +162,8 @@ class LandProperty(IdentifiedObject):
         for obj in ErpOrganisationRoles:
             if self not in obj._LandProperty:
                 obj._LandProperty.append(self)
-            self._ErpOrganisationRoles.append(obj)
+            if obj not in self._ErpOrganisationRoles:
+                self._ErpOrganisationRoles.append(obj)
 
     def removeErpOrganisationRoles(self, *ErpOrganisationRoles):
         for obj in ErpOrganisationRoles:
@@ -189,7 +190,8 @@ class LandProperty(IdentifiedObject):
         for obj in AssetContainers:
             if self not in obj._LandProperties:
                 obj._LandProperties.append(self)
-            self._AssetContainers.append(obj)
+            if obj not in self._AssetContainers:
+                self._AssetContainers.append(obj)
 
     def removeAssetContainers(self, *AssetContainers):
         for obj in AssetContainers:
@@ -217,7 +219,8 @@ class LandProperty(IdentifiedObject):
         for obj in Locations:
             if self not in obj._LandProperties:
                 obj._LandProperties.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
@@ -245,7 +248,8 @@ class LandProperty(IdentifiedObject):
         for obj in RightOfWays:
             if self not in obj._LandProperties:
                 obj._LandProperties.append(self)
-            self._RightOfWays.append(obj)
+            if obj not in self._RightOfWays:
+                self._RightOfWays.append(obj)
 
     def removeRightOfWays(self, *RightOfWays):
         for obj in RightOfWays:
diff --git a/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py b/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
index fd52104..383662f 100644
--- a/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
+++ b/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
@@ -64,7 +64,8 @@ class OrgPropertyRole(Role):
         for obj in LandProperty:
             if self not in obj._ErpOrganisationRoles:
                 obj._ErpOrganisationRoles.append(self)
-            self._LandProperty.append(obj)
+            if obj not in self._LandProperty:
+                self._LandProperty.append(obj)
 
     def removeLandProperty(self, *LandProperty):
         for obj in LandProperty:
diff --git a/CIM15/IEC61970/Informative/InfLocations/RedLine.py b/CIM15/IEC61970/Informative/InfLocations/RedLine.py
index dbb253b..348a354 100644
--- a/CIM15/IEC61970/Informative/InfLocations/RedLine.py
+++ b/CIM15/IEC61970/Informative/InfLocations/RedLine.py
@@ -63,7 +63,8 @@ class RedLine(IdentifiedObject):
         for obj in Locations:
             if self not in obj._RedLines:
                 obj._RedLines.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
diff --git a/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py b/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
index 6e03076..31c1fb3 100644
--- a/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
+++ b/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
@@ -65,7 +65,8 @@ class RightOfWay(Agreement):
         for obj in LandProperties:
             if self not in obj._RightOfWays:
                 obj._RightOfWays.append(self)
-            self._LandProperties.append(obj)
+            if obj not in self._LandProperties:
+                self._LandProperties.append(obj)
 
     def removeLandProperties(self, *LandProperties):
         for obj in LandProperties:
diff --git a/CIM15/IEC61970/Informative/InfLocations/Route.py b/CIM15/IEC61970/Informative/InfLocations/Route.py
index de19f05..9ec56bb 100644
--- a/CIM15/IEC61970/Informative/InfLocations/Route.py
+++ b/CIM15/IEC61970/Informative/InfLocations/Route.py
@@ -93,7 +93,8 @@ class Route(IdentifiedObject):
         for obj in Locations:
             if self not in obj._Routes:
                 obj._Routes.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
diff --git a/CIM15/IEC61970/Informative/InfOperations/CallBack.py b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
index 9fa77cf..37d8460 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CallBack.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
@@ -111,7 +111,8 @@ class CallBack(IdentifiedObject):
         for obj in ErpPersons:
             if self not in obj._CallBacks:
                 obj._CallBacks.append(self)
-            self._ErpPersons.append(obj)
+            if obj not in self._ErpPersons:
+                self._ErpPersons.append(obj)
 
     def removeErpPersons(self, *ErpPersons):
         for obj in ErpPersons:
@@ -138,7 +139,8 @@ class CallBack(IdentifiedObject):
         for obj in TroubleTickets:
             if self not in obj._CallBacks:
                 obj._CallBacks.append(self)
-            self._TroubleTickets.append(obj)
+            if obj not in self._TroubleTickets:
+                self._TroubleTickets.append(obj)
 
     def removeTroubleTickets(self, *TroubleTickets):
         for obj in TroubleTickets:
diff --git a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
index bec6d70..eaa6e07 100644
--- a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
@@ -71,7 +71,8 @@ class ChangeSet(IdentifiedObject):
         for obj in NetworkDataSets:
             if self not in obj._ChangeSets:
                 obj._ChangeSets.append(self)
-            self._NetworkDataSets.append(obj)
+            if obj not in self._NetworkDataSets:
+                self._NetworkDataSets.append(obj)
 
     def removeNetworkDataSets(self, *NetworkDataSets):
         for obj in NetworkDataSets:
@@ -120,7 +121,8 @@ class ChangeSet(IdentifiedObject):
         for obj in Documents:
             if self not in obj._ChangeSets:
                 obj._ChangeSets.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
diff --git a/CIM15/IEC61970/Informative/InfOperations/Circuit.py b/CIM15/IEC61970/Informative/InfOperations/Circuit.py
index 70fc5c8..91b4ac7 100644
--- a/CIM15/IEC61970/Informative/InfOperations/Circuit.py
+++ b/CIM15/IEC61970/Informative/InfOperations/Circuit.py
@@ -60,7 +60,8 @@ class Circuit(EquipmentContainer):
         for obj in CircuitSections:
             if self not in obj._Circuits:
                 obj._Circuits.append(self)
-            self._CircuitSections.append(obj)
+            if obj not in self._CircuitSections:
+                self._CircuitSections.append(obj)
 
     def removeCircuitSections(self, *CircuitSections):
         for obj in CircuitSections:
diff --git a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
index 1a4a4c5..2e815e1 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
@@ -88,7 +88,8 @@ class CircuitSection(IdentifiedObject):
         for obj in Circuits:
             if self not in obj._CircuitSections:
                 obj._CircuitSections.append(self)
-            self._Circuits.append(obj)
+            if obj not in self._Circuits:
+                self._Circuits.append(obj)
 
     def removeCircuits(self, *Circuits):
         for obj in Circuits:
diff --git a/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py b/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
index 3e08db1..eec9445 100644
--- a/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
+++ b/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
@@ -64,7 +64,8 @@ class IncidentCode(IdentifiedObject):
         for obj in IncidentRecords:
             if self not in obj._IncidentCodes:
                 obj._IncidentCodes.append(self)
-            self._IncidentRecords.append(obj)
+            if obj not in self._IncidentRecords:
+                self._IncidentRecords.append(obj)
 
     def removeIncidentRecords(self, *IncidentRecords):
         for obj in IncidentRecords:
diff --git a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
index 23fe75c..1f0b925 100644
--- a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
@@ -90,7 +90,8 @@ class IncidentRecord(Document):
         for obj in IncidentCodes:
             if self not in obj._IncidentRecords:
                 obj._IncidentRecords.append(self)
-            self._IncidentCodes.append(obj)
+            if obj not in self._IncidentCodes:
+                self._IncidentCodes.append(obj)
 
     def removeIncidentCodes(self, *IncidentCodes):
         for obj in IncidentCodes:
diff --git a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
index 0d3c02d..f473638 100644
--- a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
@@ -81,7 +81,8 @@ class NetworkDataSet(IdentifiedObject):
         for obj in Documents:
             if self not in obj._NetworkDataSets:
                 obj._NetworkDataSets.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
@@ -128,7 +129,8 @@ class NetworkDataSet(IdentifiedObject):
         for obj in ChangeSets:
             if self not in obj._NetworkDataSets:
                 obj._NetworkDataSets.append(self)
-            self._ChangeSets.append(obj)
+            if obj not in self._ChangeSets:
+                self._ChangeSets.append(obj)
 
     def removeChangeSets(self, *ChangeSets):
         for obj in ChangeSets:
@@ -155,7 +157,8 @@ class NetworkDataSet(IdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._NetworkDataSets:
                 obj._NetworkDataSets.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageCode.py b/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
index f19f08a..e9907fc 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
@@ -68,7 +68,8 @@ class OutageCode(IdentifiedObject):
         for obj in OutageRecords:
             if self not in obj._OutageCodes:
                 obj._OutageCodes.append(self)
-            self._OutageRecords.append(obj)
+            if obj not in self._OutageRecords:
+                self._OutageRecords.append(obj)
 
     def removeOutageRecords(self, *OutageRecords):
         for obj in OutageRecords:
@@ -95,7 +96,8 @@ class OutageCode(IdentifiedObject):
         for obj in OutageSteps:
             if self not in obj._OutageCodes:
                 obj._OutageCodes.append(self)
-            self._OutageSteps.append(obj)
+            if obj not in self._OutageSteps:
+                self._OutageSteps.append(obj)
 
     def removeOutageSteps(self, *OutageSteps):
         for obj in OutageSteps:
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py b/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
index 161ad28..d85fdb5 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
@@ -72,7 +72,8 @@ class OutageNotification(Document):
         for obj in CustomerDatas:
             if self not in obj._OutageNotifications:
                 obj._OutageNotifications.append(self)
-            self._CustomerDatas.append(obj)
+            if obj not in self._CustomerDatas:
+                self._CustomerDatas.append(obj)
 
     def removeCustomerDatas(self, *CustomerDatas):
         for obj in CustomerDatas:
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
index ba1ac1d..c159e7e 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
@@ -89,7 +89,8 @@ class OutageRecord(Document):
         for obj in OutageCodes:
             if self not in obj._OutageRecords:
                 obj._OutageRecords.append(self)
-            self._OutageCodes.append(obj)
+            if obj not in self._OutageCodes:
+                self._OutageCodes.append(obj)
 
     def removeOutageCodes(self, *OutageCodes):
         for obj in OutageCodes:
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
index 1e2c5ae..a356531 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
@@ -126,7 +126,8 @@ class OutageStep(IdentifiedObject):
         for obj in Crews:
             if self not in obj._OutageSteps:
                 obj._OutageSteps.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
@@ -195,7 +196,8 @@ class OutageStep(IdentifiedObject):
         for obj in OutageCodes:
             if self not in obj._OutageSteps:
                 obj._OutageSteps.append(self)
-            self._OutageCodes.append(obj)
+            if obj not in self._OutageCodes:
+                self._OutageCodes.append(obj)
 
     def removeOutageCodes(self, *OutageCodes):
         for obj in OutageCodes:
diff --git a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
index 0593cb1..e98012f 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
@@ -112,7 +112,8 @@ class SwitchingSchedule(Document):
         for obj in Crews:
             if self not in obj._SwitchingSchedules:
                 obj._SwitchingSchedules.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
diff --git a/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py b/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
index 6cdab40..0fbe5d9 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
@@ -126,7 +126,8 @@ class SwitchingStep(IdentifiedObject):
         for obj in PowerSystemResources:
             if self not in obj._ScheduleSteps:
                 obj._ScheduleSteps.append(self)
-            self._PowerSystemResources.append(obj)
+            if obj not in self._PowerSystemResources:
+                self._PowerSystemResources.append(obj)
 
     def removePowerSystemResources(self, *PowerSystemResources):
         for obj in PowerSystemResources:
diff --git a/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py b/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
index c366e78..c3f9c23 100644
--- a/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
+++ b/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
@@ -107,7 +107,8 @@ class TroubleTicket(Document):
         for obj in CallBacks:
             if self not in obj._TroubleTickets:
                 obj._TroubleTickets.append(self)
-            self._CallBacks.append(obj)
+            if obj not in self._CallBacks:
+                self._CallBacks.append(obj)
 
     def removeCallBacks(self, *CallBacks):
         for obj in CallBacks:
diff --git a/CIM15/IEC61970/Informative/InfWork/Appointment.py b/CIM15/IEC61970/Informative/InfWork/Appointment.py
index 85e65e6..727f1ca 100644
--- a/CIM15/IEC61970/Informative/InfWork/Appointment.py
+++ b/CIM15/IEC61970/Informative/InfWork/Appointment.py
@@ -81,7 +81,8 @@ class Appointment(ScheduledEvent):
         for obj in ErpPersons:
             if self not in obj._Appointments:
                 obj._Appointments.append(self)
-            self._ErpPersons.append(obj)
+            if obj not in self._ErpPersons:
+                self._ErpPersons.append(obj)
 
     def removeErpPersons(self, *ErpPersons):
         for obj in ErpPersons:
diff --git a/CIM15/IEC61970/Informative/InfWork/Assignment.py b/CIM15/IEC61970/Informative/InfWork/Assignment.py
index 95f5ddf..4e3f956 100644
--- a/CIM15/IEC61970/Informative/InfWork/Assignment.py
+++ b/CIM15/IEC61970/Informative/InfWork/Assignment.py
@@ -64,7 +64,8 @@ class Assignment(Document):
         for obj in Crews:
             if self not in obj._Assignments:
                 obj._Assignments.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
diff --git a/CIM15/IEC61970/Informative/InfWork/CUAsset.py b/CIM15/IEC61970/Informative/InfWork/CUAsset.py
index 7b23958..3176c6b 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUAsset.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUAsset.py
@@ -75,7 +75,8 @@ class CUAsset(IdentifiedObject):
         for obj in CompatibleUnits:
             if self not in obj._CUAssets:
                 obj._CUAssets.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
diff --git a/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py b/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
index 9131be3..4d96c32 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
@@ -71,7 +71,8 @@ class CUContractorItem(IdentifiedObject):
         for obj in CompatibleUnits:
             if self not in obj._CUContractorItems:
                 obj._CUContractorItems.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
diff --git a/CIM15/IEC61970/Informative/InfWork/CUGroup.py b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
index 1ed9f35..46ee901 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUGroup.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
@@ -95,7 +95,8 @@ class CUGroup(IdentifiedObject):
         for obj in ParentCUGroups:
             if self not in obj._ChildCUGroups:
                 obj._ChildCUGroups.append(self)
-            self._ParentCUGroups.append(obj)
+            if obj not in self._ParentCUGroups:
+                self._ParentCUGroups.append(obj)
 
     def removeParentCUGroups(self, *ParentCUGroups):
         for obj in ParentCUGroups:
@@ -122,7 +123,8 @@ class CUGroup(IdentifiedObject):
         for obj in ChildCUGroups:
             if self not in obj._ParentCUGroups:
                 obj._ParentCUGroups.append(self)
-            self._ChildCUGroups.append(obj)
+            if obj not in self._ChildCUGroups:
+                self._ChildCUGroups.append(obj)
 
     def removeChildCUGroups(self, *ChildCUGroups):
         for obj in ChildCUGroups:
@@ -151,7 +153,8 @@ class CUGroup(IdentifiedObject):
         for obj in DesignLocationCUs:
             if self not in obj._CUGroups:
                 obj._CUGroups.append(self)
-            self._DesignLocationCUs.append(obj)
+            if obj not in self._DesignLocationCUs:
+                self._DesignLocationCUs.append(obj)
 
     def removeDesignLocationCUs(self, *DesignLocationCUs):
         for obj in DesignLocationCUs:
diff --git a/CIM15/IEC61970/Informative/InfWork/CULaborItem.py b/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
index d441139..50e1e30 100644
--- a/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
@@ -83,7 +83,8 @@ class CULaborItem(IdentifiedObject):
         for obj in CompatibleUnits:
             if self not in obj._CULaborItems:
                 obj._CULaborItems.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
@@ -128,7 +129,8 @@ class CULaborItem(IdentifiedObject):
         for obj in QualificationRequirements:
             if self not in obj._CULaborItems:
                 obj._CULaborItems.append(self)
-            self._QualificationRequirements.append(obj)
+            if obj not in self._QualificationRequirements:
+                self._QualificationRequirements.append(obj)
 
     def removeQualificationRequirements(self, *QualificationRequirements):
         for obj in QualificationRequirements:
diff --git a/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py b/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
index 69aeeba..4dd72b5 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
@@ -81,7 +81,8 @@ class CUMaterialItem(IdentifiedObject):
         for obj in PropertyUnits:
             if self not in obj._CUMaterialItems:
                 obj._CUMaterialItems.append(self)
-            self._PropertyUnits.append(obj)
+            if obj not in self._PropertyUnits:
+                self._PropertyUnits.append(obj)
 
     def removePropertyUnits(self, *PropertyUnits):
         for obj in PropertyUnits:
@@ -108,7 +109,8 @@ class CUMaterialItem(IdentifiedObject):
         for obj in CompatibleUnits:
             if self not in obj._CUMaterialItems:
                 obj._CUMaterialItems.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
diff --git a/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py b/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
index 273aa5e..926f1ce 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
@@ -92,7 +92,8 @@ class CUWorkEquipmentItem(IdentifiedObject):
         for obj in CompatibleUnits:
             if self not in obj._CUWorkEquipmentItems:
                 obj._CUWorkEquipmentItems.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
diff --git a/CIM15/IEC61970/Informative/InfWork/Capability.py b/CIM15/IEC61970/Informative/InfWork/Capability.py
index 230429c..07e54af 100644
--- a/CIM15/IEC61970/Informative/InfWork/Capability.py
+++ b/CIM15/IEC61970/Informative/InfWork/Capability.py
@@ -98,7 +98,8 @@ class Capability(IdentifiedObject):
         for obj in WorkTasks:
             if self not in obj._Capabilities:
                 obj._Capabilities.append(self)
-            self._WorkTasks.append(obj)
+            if obj not in self._WorkTasks:
+                self._WorkTasks.append(obj)
 
     def removeWorkTasks(self, *WorkTasks):
         for obj in WorkTasks:
@@ -127,7 +128,8 @@ class Capability(IdentifiedObject):
         for obj in Crafts:
             if self not in obj._Capabilities:
                 obj._Capabilities.append(self)
-            self._Crafts.append(obj)
+            if obj not in self._Crafts:
+                self._Crafts.append(obj)
 
     def removeCrafts(self, *Crafts):
         for obj in Crafts:
diff --git a/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py b/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
index 2562038..921f5cb 100644
--- a/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
+++ b/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
@@ -108,7 +108,8 @@ class CompatibleUnit(Document):
         for obj in CUWorkEquipmentItems:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._CUWorkEquipmentItems.append(obj)
+            if obj not in self._CUWorkEquipmentItems:
+                self._CUWorkEquipmentItems.append(obj)
 
     def removeCUWorkEquipmentItems(self, *CUWorkEquipmentItems):
         for obj in CUWorkEquipmentItems:
@@ -135,7 +136,8 @@ class CompatibleUnit(Document):
         for obj in DesignLocationCUs:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._DesignLocationCUs.append(obj)
+            if obj not in self._DesignLocationCUs:
+                self._DesignLocationCUs.append(obj)
 
     def removeDesignLocationCUs(self, *DesignLocationCUs):
         for obj in DesignLocationCUs:
@@ -178,7 +180,8 @@ class CompatibleUnit(Document):
         for obj in CUAssets:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._CUAssets.append(obj)
+            if obj not in self._CUAssets:
+                self._CUAssets.append(obj)
 
     def removeCUAssets(self, *CUAssets):
         for obj in CUAssets:
@@ -253,7 +256,8 @@ class CompatibleUnit(Document):
         for obj in Procedures:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._Procedures.append(obj)
+            if obj not in self._Procedures:
+                self._Procedures.append(obj)
 
     def removeProcedures(self, *Procedures):
         for obj in Procedures:
@@ -280,7 +284,8 @@ class CompatibleUnit(Document):
         for obj in CUContractorItems:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._CUContractorItems.append(obj)
+            if obj not in self._CUContractorItems:
+                self._CUContractorItems.append(obj)
 
     def removeCUContractorItems(self, *CUContractorItems):
         for obj in CUContractorItems:
@@ -307,7 +312,8 @@ class CompatibleUnit(Document):
         for obj in CUMaterialItems:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._CUMaterialItems.append(obj)
+            if obj not in self._CUMaterialItems:
+                self._CUMaterialItems.append(obj)
 
     def removeCUMaterialItems(self, *CUMaterialItems):
         for obj in CUMaterialItems:
@@ -334,7 +340,8 @@ class CompatibleUnit(Document):
         for obj in CULaborItems:
             if self not in obj._CompatibleUnits:
                 obj._CompatibleUnits.append(self)
-            self._CULaborItems.append(obj)
+            if obj not in self._CULaborItems:
+                self._CULaborItems.append(obj)
 
     def removeCULaborItems(self, *CULaborItems):
         for obj in CULaborItems:
diff --git a/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py b/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
index 9eb8271..752ac08 100644
--- a/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
+++ b/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
@@ -79,7 +79,8 @@ class ConditionFactor(IdentifiedObject):
         for obj in Designs:
             if self not in obj._ConditionFactors:
                 obj._ConditionFactors.append(self)
-            self._Designs.append(obj)
+            if obj not in self._Designs:
+                self._Designs.append(obj)
 
     def removeDesigns(self, *Designs):
         for obj in Designs:
@@ -106,7 +107,8 @@ class ConditionFactor(IdentifiedObject):
         for obj in DesignLocations:
             if self not in obj._ConditionFactors:
                 obj._ConditionFactors.append(self)
-            self._DesignLocations.append(obj)
+            if obj not in self._DesignLocations:
+                self._DesignLocations.append(obj)
 
     def removeDesignLocations(self, *DesignLocations):
         for obj in DesignLocations:
@@ -135,7 +137,8 @@ class ConditionFactor(IdentifiedObject):
         for obj in DesignLocationCUs:
             if self not in obj._ConditionFactors:
                 obj._ConditionFactors.append(self)
-            self._DesignLocationCUs.append(obj)
+            if obj not in self._DesignLocationCUs:
+                self._DesignLocationCUs.append(obj)
 
     def removeDesignLocationCUs(self, *DesignLocationCUs):
         for obj in DesignLocationCUs:
diff --git a/CIM15/IEC61970/Informative/InfWork/ContractorItem.py b/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
index 176d0e0..1cf4b1d 100644
--- a/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
@@ -99,7 +99,8 @@ class ContractorItem(IdentifiedObject):
         for obj in ErpPayables:
             if self not in obj._ContractorItems:
                 obj._ContractorItems.append(self)
-            self._ErpPayables.append(obj)
+            if obj not in self._ErpPayables:
+                self._ErpPayables.append(obj)
 
     def removeErpPayables(self, *ErpPayables):
         for obj in ErpPayables:
diff --git a/CIM15/IEC61970/Informative/InfWork/CostType.py b/CIM15/IEC61970/Informative/InfWork/CostType.py
index 32b9f99..eb39e3a 100644
--- a/CIM15/IEC61970/Informative/InfWork/CostType.py
+++ b/CIM15/IEC61970/Informative/InfWork/CostType.py
@@ -95,7 +95,8 @@ class CostType(IdentifiedObject):
         for obj in ErpJournalEntries:
             if self not in obj._CostTypes:
                 obj._CostTypes.append(self)
-            self._ErpJournalEntries.append(obj)
+            if obj not in self._ErpJournalEntries:
+                self._ErpJournalEntries.append(obj)
 
     def removeErpJournalEntries(self, *ErpJournalEntries):
         for obj in ErpJournalEntries:
diff --git a/CIM15/IEC61970/Informative/InfWork/Crew.py b/CIM15/IEC61970/Informative/InfWork/Crew.py
index 18840f1..95e538e 100644
--- a/CIM15/IEC61970/Informative/InfWork/Crew.py
+++ b/CIM15/IEC61970/Informative/InfWork/Crew.py
@@ -133,7 +133,8 @@ class Crew(IdentifiedObject):
         for obj in SwitchingSchedules:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._SwitchingSchedules.append(obj)
+            if obj not in self._SwitchingSchedules:
+                self._SwitchingSchedules.append(obj)
 
     def removeSwitchingSchedules(self, *SwitchingSchedules):
         for obj in SwitchingSchedules:
@@ -197,7 +198,8 @@ class Crew(IdentifiedObject):
         for obj in CrewMembers:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._CrewMembers.append(obj)
+            if obj not in self._CrewMembers:
+                self._CrewMembers.append(obj)
 
     def removeCrewMembers(self, *CrewMembers):
         for obj in CrewMembers:
@@ -224,7 +226,8 @@ class Crew(IdentifiedObject):
         for obj in OutageSteps:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._OutageSteps.append(obj)
+            if obj not in self._OutageSteps:
+                self._OutageSteps.append(obj)
 
     def removeOutageSteps(self, *OutageSteps):
         for obj in OutageSteps:
@@ -272,7 +275,8 @@ class Crew(IdentifiedObject):
         for obj in Assignments:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._Assignments.append(obj)
+            if obj not in self._Assignments:
+                self._Assignments.append(obj)
 
     def removeAssignments(self, *Assignments):
         for obj in Assignments:
@@ -299,7 +303,8 @@ class Crew(IdentifiedObject):
         for obj in Locations:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
@@ -327,7 +332,8 @@ class Crew(IdentifiedObject):
         for obj in WorkTasks:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._WorkTasks.append(obj)
+            if obj not in self._WorkTasks:
+                self._WorkTasks.append(obj)
 
     def removeWorkTasks(self, *WorkTasks):
         for obj in WorkTasks:
@@ -354,7 +360,8 @@ class Crew(IdentifiedObject):
         for obj in Organisations:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._Organisations.append(obj)
+            if obj not in self._Organisations:
+                self._Organisations.append(obj)
 
     def removeOrganisations(self, *Organisations):
         for obj in Organisations:
@@ -381,7 +388,8 @@ class Crew(IdentifiedObject):
         for obj in ShiftPatterns:
             if self not in obj._Crews:
                 obj._Crews.append(self)
-            self._ShiftPatterns.append(obj)
+            if obj not in self._ShiftPatterns:
+                self._ShiftPatterns.append(obj)
 
     def removeShiftPatterns(self, *ShiftPatterns):
         for obj in ShiftPatterns:
diff --git a/CIM15/IEC61970/Informative/InfWork/Design.py b/CIM15/IEC61970/Informative/InfWork/Design.py
index 3ad83f7..92c6331 100644
--- a/CIM15/IEC61970/Informative/InfWork/Design.py
+++ b/CIM15/IEC61970/Informative/InfWork/Design.py
@@ -100,7 +100,8 @@ class Design(Document):
         for obj in DesignLocations:
             if self not in obj._Designs:
                 obj._Designs.append(self)
-            self._DesignLocations.append(obj)
+            if obj not in self._DesignLocations:
+                self._DesignLocations.append(obj)
 
     def removeDesignLocations(self, *DesignLocations):
         for obj in DesignLocations:
@@ -147,7 +148,8 @@ class Design(Document):
         for obj in ConditionFactors:
             if self not in obj._Designs:
                 obj._Designs.append(self)
-            self._ConditionFactors.append(obj)
+            if obj not in self._ConditionFactors:
+                self._ConditionFactors.append(obj)
 
     def removeConditionFactors(self, *ConditionFactors):
         for obj in ConditionFactors:
@@ -230,7 +232,8 @@ class Design(Document):
         for obj in DesignLocationsCUs:
             if self not in obj._Designs:
                 obj._Designs.append(self)
-            self._DesignLocationsCUs.append(obj)
+            if obj not in self._DesignLocationsCUs:
+                self._DesignLocationsCUs.append(obj)
 
     def removeDesignLocationsCUs(self, *DesignLocationsCUs):
         for obj in DesignLocationsCUs:
diff --git a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
index 8ec45be..dc04cd5 100644
--- a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
+++ b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
@@ -117,7 +117,8 @@ class DesignLocation(IdentifiedObject):
         for obj in Designs:
             if self not in obj._DesignLocations:
                 obj._DesignLocations.append(self)
-            self._Designs.append(obj)
+            if obj not in self._Designs:
+                self._Designs.append(obj)
 
     def removeDesigns(self, *Designs):
         for obj in Designs:
@@ -164,7 +165,8 @@ class DesignLocation(IdentifiedObject):
         for obj in WorkLocations:
             if self not in obj._DesignLocations:
                 obj._DesignLocations.append(self)
-            self._WorkLocations.append(obj)
+            if obj not in self._WorkLocations:
+                self._WorkLocations.append(obj)
 
     def removeWorkLocations(self, *WorkLocations):
         for obj in WorkLocations:
@@ -191,7 +193,8 @@ class DesignLocation(IdentifiedObject):
         for obj in Diagrams:
             if self not in obj._DesignLocations:
                 obj._DesignLocations.append(self)
-            self._Diagrams.append(obj)
+            if obj not in self._Diagrams:
+                self._Diagrams.append(obj)
 
     def removeDiagrams(self, *Diagrams):
         for obj in Diagrams:
@@ -258,7 +261,8 @@ class DesignLocation(IdentifiedObject):
         for obj in ConditionFactors:
             if self not in obj._DesignLocations:
                 obj._DesignLocations.append(self)
-            self._ConditionFactors.append(obj)
+            if obj not in self._ConditionFactors:
+                self._ConditionFactors.append(obj)
 
     def removeConditionFactors(self, *ConditionFactors):
         for obj in ConditionFactors:
diff --git a/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py b/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
index f4e8ade..c85bd54 100644
--- a/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
+++ b/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
@@ -107,7 +107,8 @@ class DesignLocationCU(IdentifiedObject):
         for obj in ConditionFactors:
             if self not in obj._DesignLocationCUs:
                 obj._DesignLocationCUs.append(self)
-            self._ConditionFactors.append(obj)
+            if obj not in self._ConditionFactors:
+                self._ConditionFactors.append(obj)
 
     def removeConditionFactors(self, *ConditionFactors):
         for obj in ConditionFactors:
@@ -134,7 +135,8 @@ class DesignLocationCU(IdentifiedObject):
         for obj in CompatibleUnits:
             if self not in obj._DesignLocationCUs:
                 obj._DesignLocationCUs.append(self)
-            self._CompatibleUnits.append(obj)
+            if obj not in self._CompatibleUnits:
+                self._CompatibleUnits.append(obj)
 
     def removeCompatibleUnits(self, *CompatibleUnits):
         for obj in CompatibleUnits:
@@ -161,7 +163,8 @@ class DesignLocationCU(IdentifiedObject):
         for obj in WorkTasks:
             if self not in obj._DesignLocationCUs:
                 obj._DesignLocationCUs.append(self)
-            self._WorkTasks.append(obj)
+            if obj not in self._WorkTasks:
+                self._WorkTasks.append(obj)
 
     def removeWorkTasks(self, *WorkTasks):
         for obj in WorkTasks:
@@ -188,7 +191,8 @@ class DesignLocationCU(IdentifiedObject):
         for obj in Designs:
             if self not in obj._DesignLocationsCUs:
                 obj._DesignLocationsCUs.append(self)
-            self._Designs.append(obj)
+            if obj not in self._Designs:
+                self._Designs.append(obj)
 
     def removeDesigns(self, *Designs):
         for obj in Designs:
@@ -215,7 +219,8 @@ class DesignLocationCU(IdentifiedObject):
         for obj in CUGroups:
             if self not in obj._DesignLocationCUs:
                 obj._DesignLocationCUs.append(self)
-            self._CUGroups.append(obj)
+            if obj not in self._CUGroups:
+                self._CUGroups.append(obj)
 
     def removeCUGroups(self, *CUGroups):
         for obj in CUGroups:
diff --git a/CIM15/IEC61970/Informative/InfWork/LaborItem.py b/CIM15/IEC61970/Informative/InfWork/LaborItem.py
index c203dbb..554fe3a 100644
--- a/CIM15/IEC61970/Informative/InfWork/LaborItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/LaborItem.py
@@ -87,7 +87,8 @@ class LaborItem(IdentifiedObject):
         for obj in ErpPersons:
             if self not in obj._LaborItems:
                 obj._LaborItems.append(self)
-            self._ErpPersons.append(obj)
+            if obj not in self._ErpPersons:
+                self._ErpPersons.append(obj)
 
     def removeErpPersons(self, *ErpPersons):
         for obj in ErpPersons:
diff --git a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
index 2819d41..8eb32ee 100644
--- a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
@@ -179,7 +179,8 @@ class MaterialItem(IdentifiedObject):
         for obj in ErpRecDelvLineItems:
             if self not in obj._MaterialItems:
                 obj._MaterialItems.append(self)
-            self._ErpRecDelvLineItems.append(obj)
+            if obj not in self._ErpRecDelvLineItems:
+                self._ErpRecDelvLineItems.append(obj)
 
     def removeErpRecDelvLineItems(self, *ErpRecDelvLineItems):
         for obj in ErpRecDelvLineItems:
diff --git a/CIM15/IEC61970/Informative/InfWork/Project.py b/CIM15/IEC61970/Informative/InfWork/Project.py
index 4be3a48..82a5b9f 100644
--- a/CIM15/IEC61970/Informative/InfWork/Project.py
+++ b/CIM15/IEC61970/Informative/InfWork/Project.py
@@ -136,7 +136,8 @@ class Project(Document):
         for obj in Requests:
             if self not in obj._Projects:
                 obj._Projects.append(self)
-            self._Requests.append(obj)
+            if obj not in self._Requests:
+                self._Requests.append(obj)
 
     def removeRequests(self, *Requests):
         for obj in Requests:
diff --git a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
index 3a4d861..9eceb4d 100644
--- a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
+++ b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
@@ -105,7 +105,8 @@ class PropertyUnit(IdentifiedObject):
         for obj in CUMaterialItems:
             if self not in obj._PropertyUnits:
                 obj._PropertyUnits.append(self)
-            self._CUMaterialItems.append(obj)
+            if obj not in self._CUMaterialItems:
+                self._CUMaterialItems.append(obj)
 
     def removeCUMaterialItems(self, *CUMaterialItems):
         for obj in CUMaterialItems:
@@ -132,7 +133,8 @@ class PropertyUnit(IdentifiedObject):
         for obj in WorkCostDetails:
             if self not in obj._PropertyUnits:
                 obj._PropertyUnits.append(self)
-            self._WorkCostDetails.append(obj)
+            if obj not in self._WorkCostDetails:
+                self._WorkCostDetails.append(obj)
 
     def removeWorkCostDetails(self, *WorkCostDetails):
         for obj in WorkCostDetails:
diff --git a/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py b/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
index 87765bd..666014e 100644
--- a/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
+++ b/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
@@ -76,7 +76,8 @@ class QualificationRequirement(IdentifiedObject):
         for obj in WorkTasks:
             if self not in obj._QualificationRequirements:
                 obj._QualificationRequirements.append(self)
-            self._WorkTasks.append(obj)
+            if obj not in self._WorkTasks:
+                self._WorkTasks.append(obj)
 
     def removeWorkTasks(self, *WorkTasks):
         for obj in WorkTasks:
@@ -103,7 +104,8 @@ class QualificationRequirement(IdentifiedObject):
         for obj in Skills:
             if self not in obj._QualificationRequirements:
                 obj._QualificationRequirements.append(self)
-            self._Skills.append(obj)
+            if obj not in self._Skills:
+                self._Skills.append(obj)
 
     def removeSkills(self, *Skills):
         for obj in Skills:
@@ -130,7 +132,8 @@ class QualificationRequirement(IdentifiedObject):
         for obj in CULaborItems:
             if self not in obj._QualificationRequirements:
                 obj._QualificationRequirements.append(self)
-            self._CULaborItems.append(obj)
+            if obj not in self._CULaborItems:
+                self._CULaborItems.append(obj)
 
     def removeCULaborItems(self, *CULaborItems):
         for obj in CULaborItems:
@@ -157,7 +160,8 @@ class QualificationRequirement(IdentifiedObject):
         for obj in Specifications:
             if self not in obj._QualificationRequirements:
                 obj._QualificationRequirements.append(self)
-            self._Specifications.append(obj)
+            if obj not in self._Specifications:
+                self._Specifications.append(obj)
 
     def removeSpecifications(self, *Specifications):
         for obj in Specifications:
diff --git a/CIM15/IEC61970/Informative/InfWork/Request.py b/CIM15/IEC61970/Informative/InfWork/Request.py
index a05b581..7063b97 100644
--- a/CIM15/IEC61970/Informative/InfWork/Request.py
+++ b/CIM15/IEC61970/Informative/InfWork/Request.py
@@ -99,7 +99,8 @@ class Request(Document):
         for obj in Projects:
             if self not in obj._Requests:
                 obj._Requests.append(self)
-            self._Projects.append(obj)
+            if obj not in self._Projects:
+                self._Projects.append(obj)
 
     def removeProjects(self, *Projects):
         for obj in Projects:
diff --git a/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py b/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
index d35ba08..1dbd0b1 100644
--- a/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
+++ b/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
@@ -74,7 +74,8 @@ class ShiftPattern(IdentifiedObject):
         for obj in Crews:
             if self not in obj._ShiftPatterns:
                 obj._ShiftPatterns.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
index dabdae9..96fcda5 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
@@ -140,7 +140,8 @@ class WorkCostDetail(Document):
         for obj in Works:
             if self not in obj._WorkCostDetails:
                 obj._WorkCostDetails.append(self)
-            self._Works.append(obj)
+            if obj not in self._Works:
+                self._Works.append(obj)
 
     def removeWorks(self, *Works):
         for obj in Works:
@@ -218,7 +219,8 @@ class WorkCostDetail(Document):
         for obj in PropertyUnits:
             if self not in obj._WorkCostDetails:
                 obj._WorkCostDetails.append(self)
-            self._PropertyUnits.append(obj)
+            if obj not in self._PropertyUnits:
+                self._PropertyUnits.append(obj)
 
     def removePropertyUnits(self, *PropertyUnits):
         for obj in PropertyUnits:
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkLocation.py b/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
index 1c6e64c..b40d70c 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
@@ -96,7 +96,8 @@ class WorkLocation(Location):
         for obj in DesignLocations:
             if self not in obj._WorkLocations:
                 obj._WorkLocations.append(self)
-            self._DesignLocations.append(obj)
+            if obj not in self._DesignLocations:
+                self._DesignLocations.append(obj)
 
     def removeDesignLocations(self, *DesignLocations):
         for obj in DesignLocations:
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkTask.py b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
index e31f8b7..65de021 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkTask.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
@@ -193,7 +193,8 @@ class WorkTask(Document):
         for obj in Crews:
             if self not in obj._WorkTasks:
                 obj._WorkTasks.append(self)
-            self._Crews.append(obj)
+            if obj not in self._Crews:
+                self._Crews.append(obj)
 
     def removeCrews(self, *Crews):
         for obj in Crews:
@@ -252,7 +253,8 @@ class WorkTask(Document):
         for obj in DesignLocationCUs:
             if self not in obj._WorkTasks:
                 obj._WorkTasks.append(self)
-            self._DesignLocationCUs.append(obj)
+            if obj not in self._DesignLocationCUs:
+                self._DesignLocationCUs.append(obj)
 
     def removeDesignLocationCUs(self, *DesignLocationCUs):
         for obj in DesignLocationCUs:
@@ -351,7 +353,8 @@ class WorkTask(Document):
         for obj in QualificationRequirements:
             if self not in obj._WorkTasks:
                 obj._WorkTasks.append(self)
-            self._QualificationRequirements.append(obj)
+            if obj not in self._QualificationRequirements:
+                self._QualificationRequirements.append(obj)
 
     def removeQualificationRequirements(self, *QualificationRequirements):
         for obj in QualificationRequirements:
@@ -378,7 +381,8 @@ class WorkTask(Document):
         for obj in Capabilities:
             if self not in obj._WorkTasks:
                 obj._WorkTasks.append(self)
-            self._Capabilities.append(obj)
+            if obj not in self._Capabilities:
+                self._Capabilities.append(obj)
 
     def removeCapabilities(self, *Capabilities):
         for obj in Capabilities:
diff --git a/CIM15/IEC61970/Meas/Accumulator.py b/CIM15/IEC61970/Meas/Accumulator.py
index 563cc42..3f59648 100644
--- a/CIM15/IEC61970/Meas/Accumulator.py
+++ b/CIM15/IEC61970/Meas/Accumulator.py
@@ -69,7 +69,8 @@ class Accumulator(Measurement):
         for obj in LimitSets:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._LimitSets.append(obj)
+            if obj not in self._LimitSets:
+                self._LimitSets.append(obj)
 
     def removeLimitSets(self, *LimitSets):
         for obj in LimitSets:
diff --git a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
index 942c300..2713b60 100644
--- a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
@@ -86,7 +86,8 @@ class AccumulatorLimitSet(LimitSet):
         for obj in Measurements:
             if self not in obj._LimitSets:
                 obj._LimitSets.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
diff --git a/CIM15/IEC61970/Meas/Analog.py b/CIM15/IEC61970/Meas/Analog.py
index 93b2cb6..58b71c6 100644
--- a/CIM15/IEC61970/Meas/Analog.py
+++ b/CIM15/IEC61970/Meas/Analog.py
@@ -85,7 +85,8 @@ class Analog(Measurement):
         for obj in LimitSets:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._LimitSets.append(obj)
+            if obj not in self._LimitSets:
+                self._LimitSets.append(obj)
 
     def removeLimitSets(self, *LimitSets):
         for obj in LimitSets:
diff --git a/CIM15/IEC61970/Meas/AnalogLimitSet.py b/CIM15/IEC61970/Meas/AnalogLimitSet.py
index e8375a6..2f67cb1 100644
--- a/CIM15/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM15/IEC61970/Meas/AnalogLimitSet.py
@@ -86,7 +86,8 @@ class AnalogLimitSet(LimitSet):
         for obj in Measurements:
             if self not in obj._LimitSets:
                 obj._LimitSets.append(self)
-            self._Measurements.append(obj)
+            if obj not in self._Measurements:
+                self._Measurements.append(obj)
 
     def removeMeasurements(self, *Measurements):
         for obj in Measurements:
diff --git a/CIM15/IEC61970/Meas/Limit.py b/CIM15/IEC61970/Meas/Limit.py
index 5e1998e..57c8db0 100644
--- a/CIM15/IEC61970/Meas/Limit.py
+++ b/CIM15/IEC61970/Meas/Limit.py
@@ -60,7 +60,8 @@ class Limit(IdentifiedObject):
         for obj in Procedures:
             if self not in obj._Limits:
                 obj._Limits.append(self)
-            self._Procedures.append(obj)
+            if obj not in self._Procedures:
+                self._Procedures.append(obj)
 
     def removeProcedures(self, *Procedures):
         for obj in Procedures:
diff --git a/CIM15/IEC61970/Meas/Measurement.py b/CIM15/IEC61970/Meas/Measurement.py
index 9f16d00..b1f5458 100644
--- a/CIM15/IEC61970/Meas/Measurement.py
+++ b/CIM15/IEC61970/Meas/Measurement.py
@@ -126,7 +126,8 @@ class Measurement(IdentifiedObject):
         for obj in Locations:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._Locations.append(obj)
+            if obj not in self._Locations:
+                self._Locations.append(obj)
 
     def removeLocations(self, *Locations):
         for obj in Locations:
@@ -170,7 +171,8 @@ class Measurement(IdentifiedObject):
         for obj in Documents:
             if self not in obj._Measurements:
                 obj._Measurements.append(self)
-            self._Documents.append(obj)
+            if obj not in self._Documents:
+                self._Documents.append(obj)
 
     def removeDocuments(self, *Documents):
         for obj in Documents:
diff --git a/CIM15/IEC61970/Meas/MeasurementValue.py b/CIM15/IEC61970/Meas/MeasurementValue.py
index b4d8c69..173e11c 100644
--- a/CIM15/IEC61970/Meas/MeasurementValue.py
+++ b/CIM15/IEC61970/Meas/MeasurementValue.py
@@ -124,7 +124,8 @@ class MeasurementValue(IdentifiedObject):
         for obj in ProcedureDataSets:
             if self not in obj._MeasurementValues:
                 obj._MeasurementValues.append(self)
-            self._ProcedureDataSets.append(obj)
+            if obj not in self._ProcedureDataSets:
+                self._ProcedureDataSets.append(obj)
 
     def removeProcedureDataSets(self, *ProcedureDataSets):
         for obj in ProcedureDataSets:
diff --git a/CIM15/IEC61970/Outage/SwitchingOperation.py b/CIM15/IEC61970/Outage/SwitchingOperation.py
index c8e8172..a2ad738 100644
--- a/CIM15/IEC61970/Outage/SwitchingOperation.py
+++ b/CIM15/IEC61970/Outage/SwitchingOperation.py
@@ -90,7 +90,8 @@ class SwitchingOperation(IdentifiedObject):
         for obj in Switches:
             if self not in obj._SwitchingOperations:
                 obj._SwitchingOperations.append(self)
-            self._Switches.append(obj)
+            if obj not in self._Switches:
+                self._Switches.append(obj)
 
     def removeSwitches(self, *Switches):
         for obj in Switches:
diff --git a/CIM15/IEC61970/Protection/ProtectionEquipment.py b/CIM15/IEC61970/Protection/ProtectionEquipment.py
index 17c2973..423302b 100644
--- a/CIM15/IEC61970/Protection/ProtectionEquipment.py
+++ b/CIM15/IEC61970/Protection/ProtectionEquipment.py
@@ -89,7 +89,8 @@ class ProtectionEquipment(Equipment):
         for obj in ConductingEquipments:
             if self not in obj._ProtectionEquipments:
                 obj._ProtectionEquipments.append(self)
-            self._ConductingEquipments.append(obj)
+            if obj not in self._ConductingEquipments:
+                self._ConductingEquipments.append(obj)
 
     def removeConductingEquipments(self, *ConductingEquipments):
         for obj in ConductingEquipments:
@@ -117,7 +118,8 @@ class ProtectionEquipment(Equipment):
         for obj in ProtectedSwitches:
             if self not in obj._ProtectionEquipments:
                 obj._ProtectionEquipments.append(self)
-            self._ProtectedSwitches.append(obj)
+            if obj not in self._ProtectedSwitches:
+                self._ProtectedSwitches.append(obj)
 
     def removeProtectedSwitches(self, *ProtectedSwitches):
         for obj in ProtectedSwitches:
diff --git a/CIM15/IEC61970/SCADA/CommunicationLink.py b/CIM15/IEC61970/SCADA/CommunicationLink.py
index ba56259..e5c11b4 100644
--- a/CIM15/IEC61970/SCADA/CommunicationLink.py
+++ b/CIM15/IEC61970/SCADA/CommunicationLink.py
@@ -61,7 +61,8 @@ class CommunicationLink(PowerSystemResource):
         for obj in RemoteUnits:
             if self not in obj._CommunicationLinks:
                 obj._CommunicationLinks.append(self)
-            self._RemoteUnits.append(obj)
+            if obj not in self._RemoteUnits:
+                self._RemoteUnits.append(obj)
 
     def removeRemoteUnits(self, *RemoteUnits):
         for obj in RemoteUnits:
diff --git a/CIM15/IEC61970/SCADA/RemoteUnit.py b/CIM15/IEC61970/SCADA/RemoteUnit.py
index 95dfefb..e7c0875 100644
--- a/CIM15/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM15/IEC61970/SCADA/RemoteUnit.py
@@ -90,7 +90,8 @@ class RemoteUnit(PowerSystemResource):
         for obj in CommunicationLinks:
             if self not in obj._RemoteUnits:
                 obj._RemoteUnits.append(self)
-            self._CommunicationLinks.append(obj)
+            if obj not in self._CommunicationLinks:
+                self._CommunicationLinks.append(obj)
 
     def removeCommunicationLinks(self, *CommunicationLinks):
         for obj in CommunicationLinks:
diff --git a/CIM15/IEC61970/Wires/ACLineSegment.py b/CIM15/IEC61970/Wires/ACLineSegment.py
index f872f6e..a8f1d4b 100644
--- a/CIM15/IEC61970/Wires/ACLineSegment.py
+++ b/CIM15/IEC61970/Wires/ACLineSegment.py
@@ -269,7 +269,8 @@ class ACLineSegment(Conductor):
         for obj in CurrentTemperatureCurves:
             if self not in obj._ACLineSegments:
                 obj._ACLineSegments.append(self)
-            self._CurrentTemperatureCurves.append(obj)
+            if obj not in self._CurrentTemperatureCurves:
+                self._CurrentTemperatureCurves.append(obj)
 
     def removeCurrentTemperatureCurves(self, *CurrentTemperatureCurves):
         for obj in CurrentTemperatureCurves:
diff --git a/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py b/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
index 524f6b6..6845783 100644
--- a/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
+++ b/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
@@ -58,7 +58,8 @@ class CurrentTemperatureCurve(Curve):
         for obj in ACLineSegments:
             if self not in obj._CurrentTemperatureCurves:
                 obj._CurrentTemperatureCurves.append(self)
-            self._ACLineSegments.append(obj)
+            if obj not in self._ACLineSegments:
+                self._ACLineSegments.append(obj)
 
     def removeACLineSegments(self, *ACLineSegments):
         for obj in ACLineSegments:
diff --git a/CIM15/IEC61970/Wires/ProtectedSwitch.py b/CIM15/IEC61970/Wires/ProtectedSwitch.py
index 9614a0a..56c5ef9 100644
--- a/CIM15/IEC61970/Wires/ProtectedSwitch.py
+++ b/CIM15/IEC61970/Wires/ProtectedSwitch.py
@@ -69,7 +69,8 @@ class ProtectedSwitch(Switch):
         for obj in ProtectionEquipments:
             if self not in obj._ProtectedSwitches:
                 obj._ProtectedSwitches.append(self)
-            self._ProtectionEquipments.append(obj)
+            if obj not in self._ProtectionEquipments:
+                self._ProtectionEquipments.append(obj)
 
     def removeProtectionEquipments(self, *ProtectionEquipments):
         for obj in ProtectionEquipments:
diff --git a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
index 7625280..77373cf 100644
--- a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -94,7 +94,8 @@ class ReactiveCapabilityCurve(Curve):
         for obj in SynchronousMachines:
             if self not in obj._ReactiveCapabilityCurves:
                 obj._ReactiveCapabilityCurves.append(self)
-            self._SynchronousMachines.append(obj)
+            if obj not in self._SynchronousMachines:
+                self._SynchronousMachines.append(obj)
 
     def removeSynchronousMachines(self, *SynchronousMachines):
         for obj in SynchronousMachines:
diff --git a/CIM15/IEC61970/Wires/Switch.py b/CIM15/IEC61970/Wires/Switch.py
index 531e694..abc0565 100644
--- a/CIM15/IEC61970/Wires/Switch.py
+++ b/CIM15/IEC61970/Wires/Switch.py
@@ -101,7 +101,8 @@ class Switch(ConductingEquipment):
         for obj in SwitchingOperations:
             if self not in obj._Switches:
                 obj._Switches.append(self)
-            self._SwitchingOperations.append(obj)
+            if obj not in self._SwitchingOperations:
+                self._SwitchingOperations.append(obj)
 
     def removeSwitchingOperations(self, *SwitchingOperations):
         for obj in SwitchingOperations:
@@ -128,7 +129,8 @@ class Switch(ConductingEquipment):
         for obj in LoadMgmtFunctions:
             if self not in obj._Switches:
                 obj._Switches.append(self)
-            self._LoadMgmtFunctions.append(obj)
+            if obj not in self._LoadMgmtFunctions:
+                self._LoadMgmtFunctions.append(obj)
 
     def removeLoadMgmtFunctions(self, *LoadMgmtFunctions):
         for obj in LoadMgmtFunctions:
@@ -155,7 +157,8 @@ class Switch(ConductingEquipment):
         for obj in ConnectDisconnectFunctions:
             if self not in obj._Switches:
                 obj._Switches.append(self)
-            self._ConnectDisconnectFunctions.append(obj)
+            if obj not in self._ConnectDisconnectFunctions:
+                self._ConnectDisconnectFunctions.append(obj)
 
     def removeConnectDisconnectFunctions(self, *ConnectDisconnectFunctions):
         for obj in ConnectDisconnectFunctions:
diff --git a/CIM15/IEC61970/Wires/SynchronousMachine.py b/CIM15/IEC61970/Wires/SynchronousMachine.py
index 9d50cd4..d0539f3 100644
--- a/CIM15/IEC61970/Wires/SynchronousMachine.py
+++ b/CIM15/IEC61970/Wires/SynchronousMachine.py
@@ -197,7 +197,8 @@ class SynchronousMachine(RegulatingCondEq):
         for obj in PrimeMovers:
             if self not in obj._SynchronousMachines:
                 obj._SynchronousMachines.append(self)
-            self._PrimeMovers.append(obj)
+            if obj not in self._PrimeMovers:
+                self._PrimeMovers.append(obj)
 
     def removePrimeMovers(self, *PrimeMovers):
         for obj in PrimeMovers:
@@ -242,7 +243,8 @@ class SynchronousMachine(RegulatingCondEq):
         for obj in ReactiveCapabilityCurves:
             if self not in obj._SynchronousMachines:
                 obj._SynchronousMachines.append(self)
-            self._ReactiveCapabilityCurves.append(obj)
+            if obj not in self._ReactiveCapabilityCurves:
+                self._ReactiveCapabilityCurves.append(obj)
 
     def removeReactiveCapabilityCurves(self, *ReactiveCapabilityCurves):
         for obj in ReactiveCapabilityCurves:
diff --git a/CIM15/IEC61970/Wires/TransformerEnd.py b/CIM15/IEC61970/Wires/TransformerEnd.py
index 29a7939..faf17ee 100644
--- a/CIM15/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/IEC61970/Wires/TransformerEnd.py
@@ -287,7 +287,8 @@ class TransformerEnd(IdentifiedObject):
         for obj in ToMeshImpedance:
             if self not in obj._ToTransformerEnd:
                 obj._ToTransformerEnd.append(self)
-            self._ToMeshImpedance.append(obj)
+            if obj not in self._ToMeshImpedance:
+                self._ToMeshImpedance.append(obj)
 
     def removeToMeshImpedance(self, *ToMeshImpedance):
         for obj in ToMeshImpedance:
diff --git a/CIM15/IEC61970/Wires/TransformerMeshImpedance.py b/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
index 91eab0c..eff8beb 100644
--- a/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
+++ b/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
@@ -106,7 +106,8 @@ class TransformerMeshImpedance(IdentifiedObject):
         for obj in ToTransformerEnd:
             if self not in obj._ToMeshImpedance:
                 obj._ToMeshImpedance.append(self)
-            self._ToTransformerEnd.append(obj)
+            if obj not in self._ToTransformerEnd:
+                self._ToTransformerEnd.append(obj)
 
     def removeToTransformerEnd(self, *ToTransformerEnd):
         for obj in ToTransformerEnd:
@@ -134,7 +135,8 @@ class TransformerMeshImpedance(IdentifiedObject):
         for obj in ToTransformerEndInfo:
             if self not in obj._ToMeshImpedance:
                 obj._ToMeshImpedance.append(self)
-            self._ToTransformerEndInfo.append(obj)
+            if obj not in self._ToTransformerEndInfo:
+                self._ToTransformerEndInfo.append(obj)
 
     def removeToTransformerEndInfo(self, *ToTransformerEndInfo):
         for obj in ToTransformerEndInfo:
diff --git a/CIM15/IEC62325/MarketParticipant.py b/CIM15/IEC62325/MarketParticipant.py
index 9b69ce8..5dad924 100644
--- a/CIM15/IEC62325/MarketParticipant.py
+++ b/CIM15/IEC62325/MarketParticipant.py
@@ -59,7 +59,8 @@ class MarketParticipant(Organisation):
         for obj in MarketRoles:
             if self not in obj._MarketParticipants:
                 obj._MarketParticipants.append(self)
-            self._MarketRoles.append(obj)
+            if obj not in self._MarketRoles:
+                self._MarketRoles.append(obj)
 
     def removeMarketRoles(self, *MarketRoles):
         for obj in MarketRoles:
diff --git a/CIM15/IEC62325/MarketRole.py b/CIM15/IEC62325/MarketRole.py
index 52d5dd1..2b5068d 100644
--- a/CIM15/IEC62325/MarketRole.py
+++ b/CIM15/IEC62325/MarketRole.py
@@ -70,7 +70,8 @@ class MarketRole(IdentifiedObject):
         for obj in MarketParticipants:
             if self not in obj._MarketRoles:
                 obj._MarketRoles.append(self)
-            self._MarketParticipants.append(obj)
+            if obj not in self._MarketParticipants:
+                self._MarketParticipants.append(obj)
 
     def removeMarketParticipants(self, *MarketParticipants):
         for obj in MarketParticipants:
-- 
2.43.0


From 825d480c866630993f8dd1961b0d298c95d744aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 04/29] fix: do not adopt the caller's list as internal storage
 of an n:m list

---
 .../IEC61968/AssetModels/OpenCircuitTest.py    |  2 +-
 .../IEC61968/AssetModels/ShortCircuitTest.py   |  2 +-
 .../IEC61968/AssetModels/ToWindingSpec.py      |  4 ++--
 .../IEC61968/AssetModels/OpenCircuitTest.py    |  2 +-
 .../IEC61968/AssetModels/ShortCircuitTest.py   |  2 +-
 .../IEC61968/AssetModels/ToWindingSpec.py      |  4 ++--
 .../IEC61968/AssetModels/OpenCircuitTest.py    |  2 +-
 .../IEC61968/AssetModels/ShortCircuitTest.py   |  2 +-
 .../IEC61968/AssetModels/ToWindingSpec.py      |  4 ++--
 .../Dynamics/IEC61968/Assets/AssetsAsset.py    |  2 +-
 .../Customers/CustomersCustomerAgreement.py    |  2 +-
 .../IEC61970/Core/CoreConductingEquipment.py   |  2 +-
 .../Dynamics/IEC61970/Core/CoreEquipment.py    |  2 +-
 .../IEC61970/Core/CorePowerSystemResource.py   |  6 +++---
 .../Dynamics/IEC61970/Core/CorePsrList.py      |  2 +-
 .../IEC61970/Core/CoreReportingGroup.py        |  2 +-
 .../ProtectionProtectionEquipment.py           |  2 +-
 CIM14/IEC61968/AssetModels/OpenCircuitTest.py  |  2 +-
 CIM14/IEC61968/AssetModels/ShortCircuitTest.py |  2 +-
 CIM14/IEC61968/AssetModels/ToWindingSpec.py    |  4 ++--
 CIM14/IEC61968/Assets/Asset.py                 |  8 ++++----
 CIM14/IEC61968/Common/ActivityRecord.py        |  4 ++--
 CIM14/IEC61968/Common/Document.py              |  4 ++--
 CIM14/IEC61968/Common/Location.py              |  2 +-
 CIM14/IEC61968/Common/UserAttribute.py         |  4 ++--
 CIM14/IEC61968/Customers/Customer.py           |  2 +-
 CIM14/IEC61968/Customers/CustomerAgreement.py  |  6 +++---
 CIM14/IEC61968/Customers/PricingStructure.py   |  6 +++---
 CIM14/IEC61968/Customers/ServiceLocation.py    |  2 +-
 CIM14/IEC61968/Customers/Tariff.py             |  4 ++--
 .../LoadControl/ConnectDisconnectFunction.py   |  2 +-
 CIM14/IEC61968/Metering/EndDeviceAsset.py      |  2 +-
 CIM14/IEC61968/Metering/EndDeviceGroup.py      |  2 +-
 CIM14/IEC61968/Metering/IntervalBlock.py       |  2 +-
 CIM14/IEC61968/Metering/IntervalReading.py     |  2 +-
 CIM14/IEC61968/Metering/MeterReading.py        |  2 +-
 CIM14/IEC61968/Metering/Reading.py             |  2 +-
 CIM14/IEC61968/Metering/SDPLocation.py         |  2 +-
 .../IEC61968/Metering/ServiceDeliveryPoint.py  |  4 ++--
 .../PaymentMetering/AuxiliaryAccount.py        |  2 +-
 CIM14/IEC61968/PaymentMetering/Charge.py       |  6 +++---
 .../ConsumptionTariffInterval.py               |  4 ++--
 .../PaymentMetering/MerchantAccount.py         |  2 +-
 .../IEC61968/PaymentMetering/TariffProfile.py  |  6 +++---
 .../PaymentMetering/TimeTariffInterval.py      |  4 ++--
 CIM14/IEC61968/PaymentMetering/Transactor.py   |  2 +-
 CIM14/IEC61968/Work/Work.py                    |  2 +-
 CIM14/IEC61970/Core/ConductingEquipment.py     |  2 +-
 CIM14/IEC61970/Core/Equipment.py               |  2 +-
 CIM14/IEC61970/Core/PowerSystemResource.py     |  6 +++---
 CIM14/IEC61970/Core/PsrList.py                 |  2 +-
 CIM14/IEC61970/Core/ReportingGroup.py          |  2 +-
 .../IEC61970/Dynamics/BlockOutputReference.py  |  2 +-
 CIM14/IEC61970/Dynamics/CompositeModel.py      |  2 +-
 CIM14/IEC61970/Dynamics/Generators/GenEquiv.py |  2 +-
 CIM14/IEC61970/Dynamics/Generators/GenLoad.py  |  2 +-
 CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py |  2 +-
 CIM14/IEC61970/Dynamics/MetaBlockReference.py  |  2 +-
 CIM14/IEC61970/Dynamics/MetaBlockSignal.py     |  4 ++--
 .../IEC61970/Dynamics/Motors/MechanicalLoad.py |  2 +-
 CIM14/IEC61970/Dynamics/RotatingMachine.py     |  2 +-
 CIM14/IEC61970/Dynamics/SlotReference.py       |  2 +-
 .../Dynamics/TurbineGovernors/GovHydro1.py     |  2 +-
 .../GenerationDynamics/PrimeMover.py           |  2 +-
 .../GenerationDynamics/SteamSupply.py          |  2 +-
 .../GenerationDynamics/SteamTurbine.py         |  2 +-
 CIM14/IEC61970/Meas/Accumulator.py             |  2 +-
 CIM14/IEC61970/Meas/AccumulatorLimitSet.py     |  2 +-
 CIM14/IEC61970/Meas/Analog.py                  |  2 +-
 CIM14/IEC61970/Meas/AnalogLimitSet.py          |  2 +-
 CIM14/IEC61970/Meas/Measurement.py             |  4 ++--
 CIM14/IEC61970/Outage/SwitchingOperation.py    |  2 +-
 .../IEC61970/Protection/ProtectionEquipment.py |  2 +-
 CIM14/IEC61970/SCADA/CommunicationLink.py      |  2 +-
 CIM14/IEC61970/SCADA/RemoteUnit.py             |  2 +-
 CIM14/IEC61970/Wires/EnergyConsumer.py         |  2 +-
 .../IEC61970/Wires/ReactiveCapabilityCurve.py  |  2 +-
 CIM14/IEC61970/Wires/Switch.py                 |  4 ++--
 CIM14/IEC61970/Wires/SynchronousMachine.py     | 10 +++++-----
 .../Balanced/IEC61970/Wires/TransformerEnd.py  |  2 +-
 .../IEC61970/Wires/TransformerMeshImpedance.py |  2 +-
 CIM15/IEC61968/AssetModels/ShortCircuitTest.py |  2 +-
 .../IEC61968/AssetModels/TransformerEndInfo.py |  4 ++--
 CIM15/IEC61968/Assets/Asset.py                 | 18 +++++++++---------
 CIM15/IEC61968/Assets/AssetContainer.py        |  2 +-
 CIM15/IEC61968/Common/ActivityRecord.py        |  8 ++++----
 CIM15/IEC61968/Common/CoordinateSystem.py      |  2 +-
 CIM15/IEC61968/Common/Document.py              | 10 +++++-----
 CIM15/IEC61968/Common/Location.py              | 14 +++++++-------
 CIM15/IEC61968/Common/Organisation.py          |  2 +-
 CIM15/IEC61968/Common/UserAttribute.py         | 10 +++++-----
 CIM15/IEC61968/Customers/Customer.py           |  4 ++--
 CIM15/IEC61968/Customers/CustomerAgreement.py  |  6 +++---
 CIM15/IEC61968/Customers/PricingStructure.py   |  6 +++---
 CIM15/IEC61968/Customers/ServiceLocation.py    |  2 +-
 CIM15/IEC61968/Customers/Tariff.py             |  4 ++--
 .../LoadControl/ConnectDisconnectFunction.py   |  2 +-
 CIM15/IEC61968/Metering/EndDevice.py           |  2 +-
 CIM15/IEC61968/Metering/EndDeviceGroup.py      |  2 +-
 CIM15/IEC61968/Metering/IntervalBlock.py       |  2 +-
 CIM15/IEC61968/Metering/IntervalReading.py     |  2 +-
 CIM15/IEC61968/Metering/MeterReading.py        |  2 +-
 CIM15/IEC61968/Metering/Reading.py             |  2 +-
 CIM15/IEC61968/Metering/SDPLocation.py         |  2 +-
 .../IEC61968/Metering/ServiceDeliveryPoint.py  |  4 ++--
 .../PaymentMetering/AuxiliaryAccount.py        |  2 +-
 CIM15/IEC61968/PaymentMetering/Charge.py       |  6 +++---
 .../ConsumptionTariffInterval.py               |  6 +++---
 .../PaymentMetering/MerchantAccount.py         |  2 +-
 .../IEC61968/PaymentMetering/TariffProfile.py  |  6 +++---
 .../PaymentMetering/TimeTariffInterval.py      |  6 +++---
 CIM15/IEC61968/PaymentMetering/Transactor.py   |  2 +-
 CIM15/IEC61968/Work/Work.py                    |  4 ++--
 CIM15/IEC61970/Core/ConductingEquipment.py     |  2 +-
 CIM15/IEC61970/Core/Equipment.py               |  2 +-
 CIM15/IEC61970/Core/PowerSystemResource.py     | 10 +++++-----
 CIM15/IEC61970/Core/PsrList.py                 |  2 +-
 CIM15/IEC61970/Core/ReportingGroup.py          |  2 +-
 .../GenerationDynamics/PrimeMover.py           |  2 +-
 .../GenerationDynamics/SteamSupply.py          |  2 +-
 .../GenerationDynamics/SteamTurbine.py         |  2 +-
 CIM15/IEC61970/Graphics/DiagramObject.py       |  2 +-
 CIM15/IEC61970/Graphics/VisibilityLayer.py     |  2 +-
 .../InfAssets/AssetPropertyCurve.py            |  2 +-
 .../Informative/InfAssets/DimensionsInfo.py    |  2 +-
 CIM15/IEC61970/Informative/InfAssets/Medium.py |  2 +-
 .../InfAssets/MountingConnection.py            |  4 ++--
 .../Informative/InfAssets/MountingPoint.py     |  2 +-
 .../Informative/InfAssets/PowerRating.py       |  2 +-
 .../Informative/InfAssets/Procedure.py         |  4 ++--
 .../Informative/InfAssets/ProcedureDataSet.py  |  6 +++---
 .../Informative/InfAssets/ReliabilityInfo.py   |  2 +-
 .../Informative/InfAssets/Specification.py     |  4 ++--
 .../Informative/InfAssets/Structure.py         |  2 +-
 .../Informative/InfAssets/TransformerAsset.py  |  2 +-
 .../InfAssets/TransformerObservation.py        |  2 +-
 .../Informative/InfCommon/BusinessRole.py      |  2 +-
 CIM15/IEC61970/Informative/InfCommon/Craft.py  |  6 +++---
 .../InfCommon/ScheduleParameterInfo.py         |  2 +-
 .../Informative/InfCommon/ScheduledEvent.py    |  2 +-
 CIM15/IEC61970/Informative/InfCommon/Skill.py  |  4 ++--
 .../InfCustomers/CustomerBillingInfo.py        |  2 +-
 .../InfCustomers/WorkBillingInfo.py            |  2 +-
 .../InfERPSupport/ErpInvoiceLineItem.py        |  8 ++++----
 .../InfERPSupport/ErpJournalEntry.py           |  6 +++---
 .../InfERPSupport/ErpLedgerEntry.py            |  2 +-
 .../InfERPSupport/ErpOrganisation.py           |  6 +++---
 .../Informative/InfERPSupport/ErpPayable.py    |  2 +-
 .../InfERPSupport/ErpPayableLineItem.py        |  4 ++--
 .../Informative/InfERPSupport/ErpPayment.py    |  6 +++---
 .../Informative/InfERPSupport/ErpPerson.py     | 12 ++++++------
 .../InfERPSupport/ErpRecDelvLineItem.py        |  4 ++--
 .../InfERPSupport/ErpRecLineItem.py            |  4 ++--
 .../Informative/InfGMLSupport/Diagram.py       |  4 ++--
 .../InfGMLSupport/GmlDiagramObject.py          |  8 ++++----
 .../InfGMLSupport/GmlFeatureStyle.py           |  4 ++--
 .../InfGMLSupport/GmlFeatureType.py            |  2 +-
 .../Informative/InfGMLSupport/GmlFill.py       |  4 ++--
 .../Informative/InfGMLSupport/GmlFont.py       |  2 +-
 .../Informative/InfGMLSupport/GmlGraphic.py    |  2 +-
 .../Informative/InfGMLSupport/GmlMark.py       |  6 +++---
 .../InfGMLSupport/GmlObservation.py            |  2 +-
 .../Informative/InfGMLSupport/GmlSelector.py   |  2 +-
 .../Informative/InfGMLSupport/GmlStroke.py     |  4 ++--
 .../InfGMLSupport/GmlSvgParameter.py           |  6 +++---
 .../Informative/InfGMLSupport/GmlSymbol.py     |  2 +-
 .../InfLoadControl/LoadMgmtFunction.py         |  2 +-
 .../Informative/InfLocations/Hazard.py         |  2 +-
 .../Informative/InfLocations/LandProperty.py   |  8 ++++----
 .../InfLocations/OrgPropertyRole.py            |  2 +-
 .../Informative/InfLocations/RedLine.py        |  2 +-
 .../Informative/InfLocations/RightOfWay.py     |  2 +-
 .../IEC61970/Informative/InfLocations/Route.py |  2 +-
 .../Informative/InfOperations/CallBack.py      |  4 ++--
 .../Informative/InfOperations/ChangeSet.py     |  4 ++--
 .../Informative/InfOperations/Circuit.py       |  2 +-
 .../InfOperations/CircuitSection.py            |  2 +-
 .../Informative/InfOperations/IncidentCode.py  |  2 +-
 .../InfOperations/IncidentRecord.py            |  2 +-
 .../InfOperations/NetworkDataSet.py            |  6 +++---
 .../Informative/InfOperations/OutageCode.py    |  4 ++--
 .../InfOperations/OutageNotification.py        |  2 +-
 .../Informative/InfOperations/OutageRecord.py  |  2 +-
 .../Informative/InfOperations/OutageStep.py    |  4 ++--
 .../InfOperations/SwitchingSchedule.py         |  2 +-
 .../Informative/InfOperations/SwitchingStep.py |  2 +-
 .../Informative/InfOperations/TroubleTicket.py |  2 +-
 .../Informative/InfWork/Appointment.py         |  2 +-
 .../IEC61970/Informative/InfWork/Assignment.py |  2 +-
 CIM15/IEC61970/Informative/InfWork/CUAsset.py  |  2 +-
 .../Informative/InfWork/CUContractorItem.py    |  2 +-
 CIM15/IEC61970/Informative/InfWork/CUGroup.py  |  6 +++---
 .../Informative/InfWork/CULaborItem.py         |  4 ++--
 .../Informative/InfWork/CUMaterialItem.py      |  4 ++--
 .../Informative/InfWork/CUWorkEquipmentItem.py |  2 +-
 .../IEC61970/Informative/InfWork/Capability.py |  4 ++--
 .../Informative/InfWork/CompatibleUnit.py      | 14 +++++++-------
 .../Informative/InfWork/ConditionFactor.py     |  6 +++---
 .../Informative/InfWork/ContractorItem.py      |  2 +-
 CIM15/IEC61970/Informative/InfWork/CostType.py |  2 +-
 CIM15/IEC61970/Informative/InfWork/Crew.py     | 16 ++++++++--------
 CIM15/IEC61970/Informative/InfWork/Design.py   |  6 +++---
 .../Informative/InfWork/DesignLocation.py      |  8 ++++----
 .../Informative/InfWork/DesignLocationCU.py    | 10 +++++-----
 .../IEC61970/Informative/InfWork/LaborItem.py  |  2 +-
 .../Informative/InfWork/MaterialItem.py        |  2 +-
 CIM15/IEC61970/Informative/InfWork/Project.py  |  2 +-
 .../Informative/InfWork/PropertyUnit.py        |  4 ++--
 .../InfWork/QualificationRequirement.py        |  8 ++++----
 CIM15/IEC61970/Informative/InfWork/Request.py  |  2 +-
 .../Informative/InfWork/ShiftPattern.py        |  2 +-
 .../Informative/InfWork/WorkCostDetail.py      |  4 ++--
 .../Informative/InfWork/WorkLocation.py        |  2 +-
 CIM15/IEC61970/Informative/InfWork/WorkTask.py |  8 ++++----
 CIM15/IEC61970/Meas/Accumulator.py             |  2 +-
 CIM15/IEC61970/Meas/AccumulatorLimitSet.py     |  2 +-
 CIM15/IEC61970/Meas/Analog.py                  |  2 +-
 CIM15/IEC61970/Meas/AnalogLimitSet.py          |  2 +-
 CIM15/IEC61970/Meas/Limit.py                   |  2 +-
 CIM15/IEC61970/Meas/Measurement.py             |  4 ++--
 CIM15/IEC61970/Meas/MeasurementValue.py        |  2 +-
 CIM15/IEC61970/Outage/SwitchingOperation.py    |  2 +-
 .../IEC61970/Protection/ProtectionEquipment.py |  4 ++--
 CIM15/IEC61970/SCADA/CommunicationLink.py      |  2 +-
 CIM15/IEC61970/SCADA/RemoteUnit.py             |  2 +-
 CIM15/IEC61970/Wires/ACLineSegment.py          |  2 +-
 .../IEC61970/Wires/CurrentTemperatureCurve.py  |  2 +-
 CIM15/IEC61970/Wires/ProtectedSwitch.py        |  2 +-
 .../IEC61970/Wires/ReactiveCapabilityCurve.py  |  2 +-
 CIM15/IEC61970/Wires/Switch.py                 |  6 +++---
 CIM15/IEC61970/Wires/SynchronousMachine.py     |  4 ++--
 CIM15/IEC61970/Wires/TransformerEnd.py         |  2 +-
 .../IEC61970/Wires/TransformerMeshImpedance.py |  4 ++--
 CIM15/IEC62325/MarketParticipant.py            |  2 +-
 CIM15/IEC62325/MarketRole.py                   |  2 +-
 235 files changed, 402 insertions(+), 402 deletions(-)

diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
index 6bc3520..653e12b 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/OpenCircuitTest.py
@@ -69,7 +69,7 @@ class OpenCircuitTest(DistributionWindingTest):
         for r in value:
             if self not in r._OpenCircuitTests:
                 r._OpenCircuitTests.append(self)
-        self._MeasuredWindingSpecs = value
+        self._MeasuredWindingSpecs = list(value)
 
     MeasuredWindingSpecs = property(getMeasuredWindingSpecs, setMeasuredWindingSpecs)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
index 9ba4adb..e34098c 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ShortCircuitTest.py
@@ -69,7 +69,7 @@ class ShortCircuitTest(DistributionWindingTest):
         for r in value:
             if self not in r._ShortCircuitTests:
                 r._ShortCircuitTests.append(self)
-        self._ShortedWindingSpecs = value
+        self._ShortedWindingSpecs = list(value)
 
     ShortedWindingSpecs = property(getShortedWindingSpecs, setShortedWindingSpecs)
 
diff --git a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
index d7e0a74..c86e03f 100644
--- a/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/Balanced/IEC61968/AssetModels/ToWindingSpec.py
@@ -73,7 +73,7 @@ class ToWindingSpec(IdentifiedObject):
         for r in value:
             if self not in r._MeasuredWindingSpecs:
                 r._MeasuredWindingSpecs.append(self)
-        self._OpenCircuitTests = value
+        self._OpenCircuitTests = list(value)
 
     OpenCircuitTests = property(getOpenCircuitTests, setOpenCircuitTests)
 
@@ -102,7 +102,7 @@ class ToWindingSpec(IdentifiedObject):
         for r in value:
             if self not in r._ShortedWindingSpecs:
                 r._ShortedWindingSpecs.append(self)
-        self._ShortCircuitTests = value
+        self._ShortCircuitTests = list(value)
 
     ShortCircuitTests = property(getShortCircuitTests, setShortCircuitTests)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
index 90bd795..21eecbe 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/OpenCircuitTest.py
@@ -69,7 +69,7 @@ class OpenCircuitTest(DistributionWindingTest):
         for r in value:
             if self not in r._OpenCircuitTests:
                 r._OpenCircuitTests.append(self)
-        self._MeasuredWindingSpecs = value
+        self._MeasuredWindingSpecs = list(value)
 
     MeasuredWindingSpecs = property(getMeasuredWindingSpecs, setMeasuredWindingSpecs)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
index 149ceed..75c9110 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ShortCircuitTest.py
@@ -69,7 +69,7 @@ class ShortCircuitTest(DistributionWindingTest):
         for r in value:
             if self not in r._ShortCircuitTests:
                 r._ShortCircuitTests.append(self)
-        self._ShortedWindingSpecs = value
+        self._ShortedWindingSpecs = list(value)
 
     ShortedWindingSpecs = property(getShortedWindingSpecs, setShortedWindingSpecs)
 
diff --git a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
index c23cec0..dd2138d 100644
--- a/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/GIS_Connectivity/IEC61968/AssetModels/ToWindingSpec.py
@@ -73,7 +73,7 @@ class ToWindingSpec(IdentifiedObject):
         for r in value:
             if self not in r._MeasuredWindingSpecs:
                 r._MeasuredWindingSpecs.append(self)
-        self._OpenCircuitTests = value
+        self._OpenCircuitTests = list(value)
 
     OpenCircuitTests = property(getOpenCircuitTests, setOpenCircuitTests)
 
@@ -102,7 +102,7 @@ class ToWindingSpec(IdentifiedObject):
         for r in value:
             if self not in r._ShortedWindingSpecs:
                 r._ShortedWindingSpecs.append(self)
-        self._ShortCircuitTests = value
+        self._ShortCircuitTests = list(value)
 
     ShortCircuitTests = property(getShortCircuitTests, setShortCircuitTests)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
index 4562786..e5372cb 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/OpenCircuitTest.py
@@ -69,7 +69,7 @@ class OpenCircuitTest(DistributionWindingTest):
         for r in value:
             if self not in r._OpenCircuitTests:
                 r._OpenCircuitTests.append(self)
-        self._MeasuredWindingSpecs = value
+        self._MeasuredWindingSpecs = list(value)
 
     MeasuredWindingSpecs = property(getMeasuredWindingSpecs, setMeasuredWindingSpecs)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
index 3f29207..44955c9 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ShortCircuitTest.py
@@ -69,7 +69,7 @@ class ShortCircuitTest(DistributionWindingTest):
         for r in value:
             if self not in r._ShortCircuitTests:
                 r._ShortCircuitTests.append(self)
-        self._ShortedWindingSpecs = value
+        self._ShortedWindingSpecs = list(value)
 
     ShortedWindingSpecs = property(getShortedWindingSpecs, setShortedWindingSpecs)
 
diff --git a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
index c006420..6953cde 100644
--- a/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/CDPSM/Unbalanced/IEC61968/AssetModels/ToWindingSpec.py
@@ -73,7 +73,7 @@ class ToWindingSpec(IdentifiedObject):
         for r in value:
             if self not in r._MeasuredWindingSpecs:
                 r._MeasuredWindingSpecs.append(self)
-        self._OpenCircuitTests = value
+        self._OpenCircuitTests = list(value)
 
     OpenCircuitTests = property(getOpenCircuitTests, setOpenCircuitTests)
 
@@ -102,7 +102,7 @@ class ToWindingSpec(IdentifiedObject):
         for r in value:
             if self not in r._ShortedWindingSpecs:
                 r._ShortedWindingSpecs.append(self)
-        self._ShortCircuitTests = value
+        self._ShortCircuitTests = list(value)
 
     ShortCircuitTests = property(getShortCircuitTests, setShortCircuitTests)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py b/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
index 631681f..f6625c8 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61968/Assets/AssetsAsset.py
@@ -51,7 +51,7 @@ class AssetsAsset(CoreIdentifiedObject):
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._PowerSystemResources = value
+        self._PowerSystemResources = list(value)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py b/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
index 486fb1f..1727b8c 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61968/Customers/CustomersCustomerAgreement.py
@@ -51,7 +51,7 @@ class CustomersCustomerAgreement(CoreIdentifiedObject):
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._Equipments = value
+        self._Equipments = list(value)
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
index f883978..60e9bac 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreConductingEquipment.py
@@ -125,7 +125,7 @@ class CoreConductingEquipment(CoreEquipment):
         for r in value:
             if self not in r._ConductingEquipments:
                 r._ConductingEquipments.append(self)
-        self._ProtectionEquipments = value
+        self._ProtectionEquipments = list(value)
 
     ProtectionEquipments = property(getProtectionEquipments, setProtectionEquipments)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
index 571303c..7a88bd7 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreEquipment.py
@@ -106,7 +106,7 @@ class CoreEquipment(CorePowerSystemResource):
         for r in value:
             if self not in r._Equipments:
                 r._Equipments.append(self)
-        self._CustomerAgreements = value
+        self._CustomerAgreements = list(value)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
index 92d2e33..8a535e1 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePowerSystemResource.py
@@ -118,7 +118,7 @@ class CorePowerSystemResource(CoreIdentifiedObject):
         for r in value:
             if self not in r._PowerSystemResource:
                 r._PowerSystemResource.append(self)
-        self._ReportingGroup = value
+        self._ReportingGroup = list(value)
 
     ReportingGroup = property(getReportingGroup, setReportingGroup)
 
@@ -146,7 +146,7 @@ class CorePowerSystemResource(CoreIdentifiedObject):
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._PsrLists = value
+        self._PsrLists = list(value)
 
     PsrLists = property(getPsrLists, setPsrLists)
 
@@ -229,7 +229,7 @@ class CorePowerSystemResource(CoreIdentifiedObject):
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._Assets = value
+        self._Assets = list(value)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
index 4614e3f..7222a35 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CorePsrList.py
@@ -51,7 +51,7 @@ class CorePsrList(CoreIdentifiedObject):
         for r in value:
             if self not in r._PsrLists:
                 r._PsrLists.append(self)
-        self._PowerSystemResources = value
+        self._PowerSystemResources = list(value)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
index c421302..5e4db32 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Core/CoreReportingGroup.py
@@ -51,7 +51,7 @@ class CoreReportingGroup(CoreIdentifiedObject):
         for r in value:
             if self not in r._ReportingGroup:
                 r._ReportingGroup.append(self)
-        self._PowerSystemResource = value
+        self._PowerSystemResource = list(value)
 
     PowerSystemResource = property(getPowerSystemResource, setPowerSystemResource)
 
diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py b/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
index 841a9a2..e185b7d 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Protection/ProtectionProtectionEquipment.py
@@ -51,7 +51,7 @@ class ProtectionProtectionEquipment(CoreEquipment):
         for r in value:
             if self not in r._ProtectionEquipments:
                 r._ProtectionEquipments.append(self)
-        self._ConductingEquipments = value
+        self._ConductingEquipments = list(value)
 
     ConductingEquipments = property(getConductingEquipments, setConductingEquipments)
 
diff --git a/CIM14/IEC61968/AssetModels/OpenCircuitTest.py b/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
index 7ec517e..7713c3c 100644
--- a/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
+++ b/CIM14/IEC61968/AssetModels/OpenCircuitTest.py
@@ -69,7 +69,7 @@ class OpenCircuitTest(DistributionWindingTest):
         for r in value:
             if self not in r._OpenCircuitTests:
                 r._OpenCircuitTests.append(self)
-        self._MeasuredWindingSpecs = value
+        self._MeasuredWindingSpecs = list(value)
 
     MeasuredWindingSpecs = property(getMeasuredWindingSpecs, setMeasuredWindingSpecs)
 
diff --git a/CIM14/IEC61968/AssetModels/ShortCircuitTest.py b/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
index 1ad771e..b28f198 100644
--- a/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM14/IEC61968/AssetModels/ShortCircuitTest.py
@@ -69,7 +69,7 @@ class ShortCircuitTest(DistributionWindingTest):
         for r in value:
             if self not in r._ShortCircuitTests:
                 r._ShortCircuitTests.append(self)
-        self._ShortedWindingSpecs = value
+        self._ShortedWindingSpecs = list(value)
 
     ShortedWindingSpecs = property(getShortedWindingSpecs, setShortedWindingSpecs)
 
diff --git a/CIM14/IEC61968/AssetModels/ToWindingSpec.py b/CIM14/IEC61968/AssetModels/ToWindingSpec.py
index 2d89768..241d07e 100644
--- a/CIM14/IEC61968/AssetModels/ToWindingSpec.py
+++ b/CIM14/IEC61968/AssetModels/ToWindingSpec.py
@@ -90,7 +90,7 @@ class ToWindingSpec(IdentifiedObject):
         for r in value:
             if self not in r._MeasuredWindingSpecs:
                 r._MeasuredWindingSpecs.append(self)
-        self._OpenCircuitTests = value
+        self._OpenCircuitTests = list(value)
 
     OpenCircuitTests = property(getOpenCircuitTests, setOpenCircuitTests)
 
@@ -119,7 +119,7 @@ class ToWindingSpec(IdentifiedObject):
         for r in value:
             if self not in r._ShortedWindingSpecs:
                 r._ShortedWindingSpecs.append(self)
-        self._ShortCircuitTests = value
+        self._ShortCircuitTests = list(value)
 
     ShortCircuitTests = property(getShortCircuitTests, setShortCircuitTests)
 
diff --git a/CIM14/IEC61968/Assets/Asset.py b/CIM14/IEC61968/Assets/Asset.py
index a3670f0..cd7c81b 100644
--- a/CIM14/IEC61968/Assets/Asset.py
+++ b/CIM14/IEC61968/Assets/Asset.py
@@ -138,7 +138,7 @@ class Asset(IdentifiedObject):
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._PowerSystemResources = value
+        self._PowerSystemResources = list(value)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
@@ -167,7 +167,7 @@ class Asset(IdentifiedObject):
         for r in value:
             if self not in r._PropertyAssets:
                 r._PropertyAssets.append(self)
-        self._Properties = value
+        self._Properties = list(value)
 
     Properties = property(getProperties, setProperties)
 
@@ -199,7 +199,7 @@ class Asset(IdentifiedObject):
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._ActivityRecords = value
+        self._ActivityRecords = list(value)
 
     ActivityRecords = property(getActivityRecords, setActivityRecords)
 
@@ -304,7 +304,7 @@ class Asset(IdentifiedObject):
         for r in value:
             if self not in r._RatingAssets:
                 r._RatingAssets.append(self)
-        self._Ratings = value
+        self._Ratings = list(value)
 
     Ratings = property(getRatings, setRatings)
 
diff --git a/CIM14/IEC61968/Common/ActivityRecord.py b/CIM14/IEC61968/Common/ActivityRecord.py
index 86c6900..1684739 100644
--- a/CIM14/IEC61968/Common/ActivityRecord.py
+++ b/CIM14/IEC61968/Common/ActivityRecord.py
@@ -76,7 +76,7 @@ class ActivityRecord(IdentifiedObject):
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
-        self._Documents = value
+        self._Documents = list(value)
 
     Documents = property(getDocuments, setDocuments)
 
@@ -105,7 +105,7 @@ class ActivityRecord(IdentifiedObject):
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
-        self._Assets = value
+        self._Assets = list(value)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM14/IEC61968/Common/Document.py b/CIM14/IEC61968/Common/Document.py
index ac4fc7e..1388fec 100644
--- a/CIM14/IEC61968/Common/Document.py
+++ b/CIM14/IEC61968/Common/Document.py
@@ -96,7 +96,7 @@ class Document(IdentifiedObject):
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._ActivityRecords = value
+        self._ActivityRecords = list(value)
 
     ActivityRecords = property(getActivityRecords, setActivityRecords)
 
@@ -128,7 +128,7 @@ class Document(IdentifiedObject):
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._Measurements = value
+        self._Measurements = list(value)
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/IEC61968/Common/Location.py b/CIM14/IEC61968/Common/Location.py
index 98ae922..e3b0ece 100644
--- a/CIM14/IEC61968/Common/Location.py
+++ b/CIM14/IEC61968/Common/Location.py
@@ -165,7 +165,7 @@ class Location(IdentifiedObject):
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._Measurements = value
+        self._Measurements = list(value)
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/IEC61968/Common/UserAttribute.py b/CIM14/IEC61968/Common/UserAttribute.py
index 01cf606..46bf692 100644
--- a/CIM14/IEC61968/Common/UserAttribute.py
+++ b/CIM14/IEC61968/Common/UserAttribute.py
@@ -72,7 +72,7 @@ class UserAttribute(Element):
         for r in value:
             if self not in r._Properties:
                 r._Properties.append(self)
-        self._PropertyAssets = value
+        self._PropertyAssets = list(value)
 
     PropertyAssets = property(getPropertyAssets, setPropertyAssets)
 
@@ -117,7 +117,7 @@ class UserAttribute(Element):
         for r in value:
             if self not in r._Ratings:
                 r._Ratings.append(self)
-        self._RatingAssets = value
+        self._RatingAssets = list(value)
 
     RatingAssets = property(getRatingAssets, setRatingAssets)
 
diff --git a/CIM14/IEC61968/Customers/Customer.py b/CIM14/IEC61968/Customers/Customer.py
index f33a576..ef0cd6f 100644
--- a/CIM14/IEC61968/Customers/Customer.py
+++ b/CIM14/IEC61968/Customers/Customer.py
@@ -83,7 +83,7 @@ class Customer(Organisation):
         for r in value:
             if self not in r._Customers:
                 r._Customers.append(self)
-        self._Works = value
+        self._Works = list(value)
 
     Works = property(getWorks, setWorks)
 
diff --git a/CIM14/IEC61968/Customers/CustomerAgreement.py b/CIM14/IEC61968/Customers/CustomerAgreement.py
index c29a3cc..2606632 100644
--- a/CIM14/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM14/IEC61968/Customers/CustomerAgreement.py
@@ -143,7 +143,7 @@ class CustomerAgreement(Agreement):
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._PricingStructures = value
+        self._PricingStructures = list(value)
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
@@ -172,7 +172,7 @@ class CustomerAgreement(Agreement):
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._ServiceLocations = value
+        self._ServiceLocations = list(value)
 
     ServiceLocations = property(getServiceLocations, setServiceLocations)
 
@@ -334,7 +334,7 @@ class CustomerAgreement(Agreement):
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._Equipments = value
+        self._Equipments = list(value)
 
     Equipments = property(getEquipments, setEquipments)
 
diff --git a/CIM14/IEC61968/Customers/PricingStructure.py b/CIM14/IEC61968/Customers/PricingStructure.py
index ca2358f..bac7901 100644
--- a/CIM14/IEC61968/Customers/PricingStructure.py
+++ b/CIM14/IEC61968/Customers/PricingStructure.py
@@ -114,7 +114,7 @@ class PricingStructure(Document):
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
-        self._ServiceDeliveryPoints = value
+        self._ServiceDeliveryPoints = list(value)
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
@@ -143,7 +143,7 @@ class PricingStructure(Document):
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
-        self._CustomerAgreements = value
+        self._CustomerAgreements = list(value)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -189,7 +189,7 @@ class PricingStructure(Document):
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
-        self._Tariffs = value
+        self._Tariffs = list(value)
 
     Tariffs = property(getTariffs, setTariffs)
 
diff --git a/CIM14/IEC61968/Customers/ServiceLocation.py b/CIM14/IEC61968/Customers/ServiceLocation.py
index a12bddd..eef4eee 100644
--- a/CIM14/IEC61968/Customers/ServiceLocation.py
+++ b/CIM14/IEC61968/Customers/ServiceLocation.py
@@ -94,7 +94,7 @@ class ServiceLocation(Location):
         for r in value:
             if self not in r._ServiceLocations:
                 r._ServiceLocations.append(self)
-        self._CustomerAgreements = value
+        self._CustomerAgreements = list(value)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM14/IEC61968/Customers/Tariff.py b/CIM14/IEC61968/Customers/Tariff.py
index 9df0743..21ef67a 100644
--- a/CIM14/IEC61968/Customers/Tariff.py
+++ b/CIM14/IEC61968/Customers/Tariff.py
@@ -65,7 +65,7 @@ class Tariff(Document):
         for r in value:
             if self not in r._Tariffs:
                 r._Tariffs.append(self)
-        self._TariffProfiles = value
+        self._TariffProfiles = list(value)
 
     TariffProfiles = property(getTariffProfiles, setTariffProfiles)
 
@@ -94,7 +94,7 @@ class Tariff(Document):
         for r in value:
             if self not in r._Tariffs:
                 r._Tariffs.append(self)
-        self._PricingStructures = value
+        self._PricingStructures = list(value)
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
diff --git a/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py b/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
index 02538a2..0231474 100644
--- a/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
+++ b/CIM14/IEC61968/LoadControl/ConnectDisconnectFunction.py
@@ -86,7 +86,7 @@ class ConnectDisconnectFunction(DeviceFunction):
         for r in value:
             if self not in r._ConnectDisconnectFunctions:
                 r._ConnectDisconnectFunctions.append(self)
-        self._Switches = value
+        self._Switches = list(value)
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM14/IEC61968/Metering/EndDeviceAsset.py b/CIM14/IEC61968/Metering/EndDeviceAsset.py
index 138ea0b..faefebb 100644
--- a/CIM14/IEC61968/Metering/EndDeviceAsset.py
+++ b/CIM14/IEC61968/Metering/EndDeviceAsset.py
@@ -137,7 +137,7 @@ class EndDeviceAsset(AssetContainer):
         for r in value:
             if self not in r._EndDeviceAssets:
                 r._EndDeviceAssets.append(self)
-        self._EndDeviceGroups = value
+        self._EndDeviceGroups = list(value)
 
     EndDeviceGroups = property(getEndDeviceGroups, setEndDeviceGroups)
 
diff --git a/CIM14/IEC61968/Metering/EndDeviceGroup.py b/CIM14/IEC61968/Metering/EndDeviceGroup.py
index ecf957a..f3eac61 100644
--- a/CIM14/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM14/IEC61968/Metering/EndDeviceGroup.py
@@ -65,7 +65,7 @@ class EndDeviceGroup(IdentifiedObject):
         for r in value:
             if self not in r._EndDeviceGroups:
                 r._EndDeviceGroups.append(self)
-        self._EndDeviceAssets = value
+        self._EndDeviceAssets = list(value)
 
     EndDeviceAssets = property(getEndDeviceAssets, setEndDeviceAssets)
 
diff --git a/CIM14/IEC61968/Metering/IntervalBlock.py b/CIM14/IEC61968/Metering/IntervalBlock.py
index ffa3e63..042d295 100644
--- a/CIM14/IEC61968/Metering/IntervalBlock.py
+++ b/CIM14/IEC61968/Metering/IntervalBlock.py
@@ -116,7 +116,7 @@ class IntervalBlock(Element):
         for r in value:
             if self not in r._IntervalBlocks:
                 r._IntervalBlocks.append(self)
-        self._IntervalReadings = value
+        self._IntervalReadings = list(value)
 
     IntervalReadings = property(getIntervalReadings, setIntervalReadings)
 
diff --git a/CIM14/IEC61968/Metering/IntervalReading.py b/CIM14/IEC61968/Metering/IntervalReading.py
index e1d49ca..ff92e0c 100644
--- a/CIM14/IEC61968/Metering/IntervalReading.py
+++ b/CIM14/IEC61968/Metering/IntervalReading.py
@@ -82,7 +82,7 @@ class IntervalReading(MeasurementValue):
         for r in value:
             if self not in r._IntervalReadings:
                 r._IntervalReadings.append(self)
-        self._IntervalBlocks = value
+        self._IntervalBlocks = list(value)
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
diff --git a/CIM14/IEC61968/Metering/MeterReading.py b/CIM14/IEC61968/Metering/MeterReading.py
index 292cf8f..e191463 100644
--- a/CIM14/IEC61968/Metering/MeterReading.py
+++ b/CIM14/IEC61968/Metering/MeterReading.py
@@ -152,7 +152,7 @@ class MeterReading(IdentifiedObject):
         for r in value:
             if self not in r._MeterReadings:
                 r._MeterReadings.append(self)
-        self._Readings = value
+        self._Readings = list(value)
 
     Readings = property(getReadings, setReadings)
 
diff --git a/CIM14/IEC61968/Metering/Reading.py b/CIM14/IEC61968/Metering/Reading.py
index 021511b..98997ff 100644
--- a/CIM14/IEC61968/Metering/Reading.py
+++ b/CIM14/IEC61968/Metering/Reading.py
@@ -123,7 +123,7 @@ class Reading(MeasurementValue):
         for r in value:
             if self not in r._Readings:
                 r._Readings.append(self)
-        self._MeterReadings = value
+        self._MeterReadings = list(value)
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
diff --git a/CIM14/IEC61968/Metering/SDPLocation.py b/CIM14/IEC61968/Metering/SDPLocation.py
index 4d9920c..89349e4 100644
--- a/CIM14/IEC61968/Metering/SDPLocation.py
+++ b/CIM14/IEC61968/Metering/SDPLocation.py
@@ -69,7 +69,7 @@ class SDPLocation(Location):
         for r in value:
             if self not in r._SDPLocations:
                 r._SDPLocations.append(self)
-        self._ServiceDeliveryPoints = value
+        self._ServiceDeliveryPoints = list(value)
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
index b2aa43e..8dc9062 100644
--- a/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM14/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -129,7 +129,7 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for r in value:
             if self not in r._ServiceDeliveryPoints:
                 r._ServiceDeliveryPoints.append(self)
-        self._PricingStructures = value
+        self._PricingStructures = list(value)
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
@@ -175,7 +175,7 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for r in value:
             if self not in r._ServiceDeliveryPoints:
                 r._ServiceDeliveryPoints.append(self)
-        self._SDPLocations = value
+        self._SDPLocations = list(value)
 
     SDPLocations = property(getSDPLocations, setSDPLocations)
 
diff --git a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
index d419226..c30dd3e 100644
--- a/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -78,7 +78,7 @@ class AuxiliaryAccount(Document):
         for r in value:
             if self not in r._AuxiliaryAccounts:
                 r._AuxiliaryAccounts.append(self)
-        self._Charges = value
+        self._Charges = list(value)
 
     Charges = property(getCharges, setCharges)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Charge.py b/CIM14/IEC61968/PaymentMetering/Charge.py
index e3f2015..fe7b546 100644
--- a/CIM14/IEC61968/PaymentMetering/Charge.py
+++ b/CIM14/IEC61968/PaymentMetering/Charge.py
@@ -80,7 +80,7 @@ class Charge(IdentifiedObject):
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
-        self._AuxiliaryAccounts = value
+        self._AuxiliaryAccounts = list(value)
 
     AuxiliaryAccounts = property(getAuxiliaryAccounts, setAuxiliaryAccounts)
 
@@ -149,7 +149,7 @@ class Charge(IdentifiedObject):
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
-        self._ConsumptionTariffIntervals = value
+        self._ConsumptionTariffIntervals = list(value)
 
     ConsumptionTariffIntervals = property(getConsumptionTariffIntervals, setConsumptionTariffIntervals)
 
@@ -178,7 +178,7 @@ class Charge(IdentifiedObject):
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
-        self._TimeTariffIntervals = value
+        self._TimeTariffIntervals = list(value)
 
     TimeTariffIntervals = property(getTimeTariffIntervals, setTimeTariffIntervals)
 
diff --git a/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py b/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
index 4113005..b3d510e 100644
--- a/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
+++ b/CIM14/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
@@ -65,7 +65,7 @@ class ConsumptionTariffInterval(Element):
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
-        self._TariffProfiles = value
+        self._TariffProfiles = list(value)
 
     TariffProfiles = property(getTariffProfiles, setTariffProfiles)
 
@@ -94,7 +94,7 @@ class ConsumptionTariffInterval(Element):
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
-        self._Charges = value
+        self._Charges = list(value)
 
     Charges = property(getCharges, setCharges)
 
diff --git a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
index 641119e..6b11d32 100644
--- a/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM14/IEC61968/PaymentMetering/MerchantAccount.py
@@ -132,7 +132,7 @@ class MerchantAccount(Document):
         for r in value:
             if self not in r._MerchantAccounts:
                 r._MerchantAccounts.append(self)
-        self._Transactors = value
+        self._Transactors = list(value)
 
     Transactors = property(getTransactors, setTransactors)
 
diff --git a/CIM14/IEC61968/PaymentMetering/TariffProfile.py b/CIM14/IEC61968/PaymentMetering/TariffProfile.py
index 44dcc3e..ee89a50 100644
--- a/CIM14/IEC61968/PaymentMetering/TariffProfile.py
+++ b/CIM14/IEC61968/PaymentMetering/TariffProfile.py
@@ -65,7 +65,7 @@ class TariffProfile(Document):
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
-        self._ConsumptionTariffIntervals = value
+        self._ConsumptionTariffIntervals = list(value)
 
     ConsumptionTariffIntervals = property(getConsumptionTariffIntervals, setConsumptionTariffIntervals)
 
@@ -94,7 +94,7 @@ class TariffProfile(Document):
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
-        self._TimeTariffIntervals = value
+        self._TimeTariffIntervals = list(value)
 
     TimeTariffIntervals = property(getTimeTariffIntervals, setTimeTariffIntervals)
 
@@ -123,7 +123,7 @@ class TariffProfile(Document):
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
-        self._Tariffs = value
+        self._Tariffs = list(value)
 
     Tariffs = property(getTariffs, setTariffs)
 
diff --git a/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py b/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
index e426bc5..01b50e8 100644
--- a/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
+++ b/CIM14/IEC61968/PaymentMetering/TimeTariffInterval.py
@@ -65,7 +65,7 @@ class TimeTariffInterval(Element):
         for r in value:
             if self not in r._TimeTariffIntervals:
                 r._TimeTariffIntervals.append(self)
-        self._TariffProfiles = value
+        self._TariffProfiles = list(value)
 
     TariffProfiles = property(getTariffProfiles, setTariffProfiles)
 
@@ -94,7 +94,7 @@ class TimeTariffInterval(Element):
         for r in value:
             if self not in r._TimeTariffIntervals:
                 r._TimeTariffIntervals.append(self)
-        self._Charges = value
+        self._Charges = list(value)
 
     Charges = property(getCharges, setCharges)
 
diff --git a/CIM14/IEC61968/PaymentMetering/Transactor.py b/CIM14/IEC61968/PaymentMetering/Transactor.py
index ca19a14..57b95df 100644
--- a/CIM14/IEC61968/PaymentMetering/Transactor.py
+++ b/CIM14/IEC61968/PaymentMetering/Transactor.py
@@ -53,7 +53,7 @@ class Transactor(IdentifiedObject):
         for r in value:
             if self not in r._Transactors:
                 r._Transactors.append(self)
-        self._MerchantAccounts = value
+        self._MerchantAccounts = list(value)
 
     MerchantAccounts = property(getMerchantAccounts, setMerchantAccounts)
 
diff --git a/CIM14/IEC61968/Work/Work.py b/CIM14/IEC61968/Work/Work.py
index 2e1c341..d21bd93 100644
--- a/CIM14/IEC61968/Work/Work.py
+++ b/CIM14/IEC61968/Work/Work.py
@@ -65,7 +65,7 @@ class Work(Document):
         for r in value:
             if self not in r._Works:
                 r._Works.append(self)
-        self._Customers = value
+        self._Customers = list(value)
 
     Customers = property(getCustomers, setCustomers)
 
diff --git a/CIM14/IEC61970/Core/ConductingEquipment.py b/CIM14/IEC61970/Core/ConductingEquipment.py
index a38df17..f6b52cb 100644
--- a/CIM14/IEC61970/Core/ConductingEquipment.py
+++ b/CIM14/IEC61970/Core/ConductingEquipment.py
@@ -148,7 +148,7 @@ class ConductingEquipment(Equipment):
         for r in value:
             if self not in r._ConductingEquipments:
                 r._ConductingEquipments.append(self)
-        self._ProtectionEquipments = value
+        self._ProtectionEquipments = list(value)
 
     ProtectionEquipments = property(getProtectionEquipments, setProtectionEquipments)
 
diff --git a/CIM14/IEC61970/Core/Equipment.py b/CIM14/IEC61970/Core/Equipment.py
index 234037d..8178da7 100644
--- a/CIM14/IEC61970/Core/Equipment.py
+++ b/CIM14/IEC61970/Core/Equipment.py
@@ -131,7 +131,7 @@ class Equipment(PowerSystemResource):
         for r in value:
             if self not in r._Equipments:
                 r._Equipments.append(self)
-        self._CustomerAgreements = value
+        self._CustomerAgreements = list(value)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM14/IEC61970/Core/PowerSystemResource.py b/CIM14/IEC61970/Core/PowerSystemResource.py
index 603a7dc..f8c3525 100644
--- a/CIM14/IEC61970/Core/PowerSystemResource.py
+++ b/CIM14/IEC61970/Core/PowerSystemResource.py
@@ -102,7 +102,7 @@ class PowerSystemResource(IdentifiedObject):
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._Assets = value
+        self._Assets = list(value)
 
     Assets = property(getAssets, setAssets)
 
@@ -130,7 +130,7 @@ class PowerSystemResource(IdentifiedObject):
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._PsrLists = value
+        self._PsrLists = list(value)
 
     PsrLists = property(getPsrLists, setPsrLists)
 
@@ -217,7 +217,7 @@ class PowerSystemResource(IdentifiedObject):
         for r in value:
             if self not in r._PowerSystemResource:
                 r._PowerSystemResource.append(self)
-        self._ReportingGroup = value
+        self._ReportingGroup = list(value)
 
     ReportingGroup = property(getReportingGroup, setReportingGroup)
 
diff --git a/CIM14/IEC61970/Core/PsrList.py b/CIM14/IEC61970/Core/PsrList.py
index 13d1fae..f3d931a 100644
--- a/CIM14/IEC61970/Core/PsrList.py
+++ b/CIM14/IEC61970/Core/PsrList.py
@@ -56,7 +56,7 @@ class PsrList(IdentifiedObject):
         for r in value:
             if self not in r._PsrLists:
                 r._PsrLists.append(self)
-        self._PowerSystemResources = value
+        self._PowerSystemResources = list(value)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM14/IEC61970/Core/ReportingGroup.py b/CIM14/IEC61970/Core/ReportingGroup.py
index 294a4d1..6dd2a94 100644
--- a/CIM14/IEC61970/Core/ReportingGroup.py
+++ b/CIM14/IEC61970/Core/ReportingGroup.py
@@ -124,7 +124,7 @@ class ReportingGroup(IdentifiedObject):
         for r in value:
             if self not in r._ReportingGroup:
                 r._ReportingGroup.append(self)
-        self._PowerSystemResource = value
+        self._PowerSystemResource = list(value)
 
     PowerSystemResource = property(getPowerSystemResource, setPowerSystemResource)
 
diff --git a/CIM14/IEC61970/Dynamics/BlockOutputReference.py b/CIM14/IEC61970/Dynamics/BlockOutputReference.py
index efdfceb..d53c4dc 100644
--- a/CIM14/IEC61970/Dynamics/BlockOutputReference.py
+++ b/CIM14/IEC61970/Dynamics/BlockOutputReference.py
@@ -72,7 +72,7 @@ class BlockOutputReference(MetaBlockConnectable):
         for r in value:
             if self not in r._blockOutputReference0:
                 r._blockOutputReference0.append(self)
-        self._metaBlockReference0 = value
+        self._metaBlockReference0 = list(value)
 
     metaBlockReference0 = property(getmetaBlockReference0, setmetaBlockReference0)
 
diff --git a/CIM14/IEC61970/Dynamics/CompositeModel.py b/CIM14/IEC61970/Dynamics/CompositeModel.py
index 9c528f9..67cb99a 100644
--- a/CIM14/IEC61970/Dynamics/CompositeModel.py
+++ b/CIM14/IEC61970/Dynamics/CompositeModel.py
@@ -50,7 +50,7 @@ class CompositeModel(Element):
         for r in value:
             if self not in r._compositeModel0:
                 r._compositeModel0.append(self)
-        self._slotReference0 = value
+        self._slotReference0 = list(value)
 
     slotReference0 = property(getslotReference0, setslotReference0)
 
diff --git a/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py b/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
index 8174f2b..e33a89f 100644
--- a/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
+++ b/CIM14/IEC61970/Dynamics/Generators/GenEquiv.py
@@ -56,7 +56,7 @@ class GenEquiv(RotatingMachine):
         for r in value:
             if self not in r._genEquiv0:
                 r._genEquiv0.append(self)
-        self._synchronousMachine0 = value
+        self._synchronousMachine0 = list(value)
 
     synchronousMachine0 = property(getsynchronousMachine0, setsynchronousMachine0)
 
diff --git a/CIM14/IEC61970/Dynamics/Generators/GenLoad.py b/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
index 1ffd6e1..c862f0b 100644
--- a/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
+++ b/CIM14/IEC61970/Dynamics/Generators/GenLoad.py
@@ -52,7 +52,7 @@ class GenLoad(RegulatingCondEq):
         for r in value:
             if self not in r._genLoad0:
                 r._genLoad0.append(self)
-        self._synchronousMachine0 = value
+        self._synchronousMachine0 = list(value)
 
     synchronousMachine0 = property(getsynchronousMachine0, setsynchronousMachine0)
 
diff --git a/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py b/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
index c64263f..8123baf 100644
--- a/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
+++ b/CIM14/IEC61970/Dynamics/Loads/AggregateLoad.py
@@ -52,7 +52,7 @@ class AggregateLoad(PowerSystemResource):
         for r in value:
             if self not in r._aggregateLoad0:
                 r._aggregateLoad0.append(self)
-        self._energyConsumer0 = value
+        self._energyConsumer0 = list(value)
 
     energyConsumer0 = property(getenergyConsumer0, setenergyConsumer0)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockReference.py b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
index 09ec7cd..9939b8f 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockReference.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockReference.py
@@ -125,7 +125,7 @@ class MetaBlockReference(IdentifiedObject):
         for r in value:
             if self not in r._metaBlockReference0:
                 r._metaBlockReference0.append(self)
-        self._blockOutputReference0 = value
+        self._blockOutputReference0 = list(value)
 
     blockOutputReference0 = property(getblockOutputReference0, setblockOutputReference0)
 
diff --git a/CIM14/IEC61970/Dynamics/MetaBlockSignal.py b/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
index 9ae4906..6f33f4e 100644
--- a/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
+++ b/CIM14/IEC61970/Dynamics/MetaBlockSignal.py
@@ -66,7 +66,7 @@ class MetaBlockSignal(IdentifiedObject):
         for r in value:
             if self not in r._metaBlockSignal:
                 r._metaBlockSignal.append(self)
-        self._metaBlockSignal1 = value
+        self._metaBlockSignal1 = list(value)
 
     metaBlockSignal1 = property(getmetaBlockSignal1, setmetaBlockSignal1)
 
@@ -94,7 +94,7 @@ class MetaBlockSignal(IdentifiedObject):
         for r in value:
             if self not in r._metaBlockSignal1:
                 r._metaBlockSignal1.append(self)
-        self._metaBlockSignal = value
+        self._metaBlockSignal = list(value)
 
     metaBlockSignal = property(getmetaBlockSignal, setmetaBlockSignal)
 
diff --git a/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py b/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
index 34f2a85..2416f6f 100644
--- a/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
+++ b/CIM14/IEC61970/Dynamics/Motors/MechanicalLoad.py
@@ -52,7 +52,7 @@ class MechanicalLoad(PowerSystemResource):
         for r in value:
             if self not in r._mechanicalLoad0:
                 r._mechanicalLoad0.append(self)
-        self._rotatingMachine0 = value
+        self._rotatingMachine0 = list(value)
 
     rotatingMachine0 = property(getrotatingMachine0, setrotatingMachine0)
 
diff --git a/CIM14/IEC61970/Dynamics/RotatingMachine.py b/CIM14/IEC61970/Dynamics/RotatingMachine.py
index 8ad28f1..b97007c 100644
--- a/CIM14/IEC61970/Dynamics/RotatingMachine.py
+++ b/CIM14/IEC61970/Dynamics/RotatingMachine.py
@@ -84,7 +84,7 @@ class RotatingMachine(RegulatingCondEq):
         for r in value:
             if self not in r._rotatingMachine0:
                 r._rotatingMachine0.append(self)
-        self._mechanicalLoad0 = value
+        self._mechanicalLoad0 = list(value)
 
     mechanicalLoad0 = property(getmechanicalLoad0, setmechanicalLoad0)
 
diff --git a/CIM14/IEC61970/Dynamics/SlotReference.py b/CIM14/IEC61970/Dynamics/SlotReference.py
index 38747b0..5db419e 100644
--- a/CIM14/IEC61970/Dynamics/SlotReference.py
+++ b/CIM14/IEC61970/Dynamics/SlotReference.py
@@ -96,7 +96,7 @@ class SlotReference(IdentifiedObject):
         for r in value:
             if self not in r._slotReference0:
                 r._slotReference0.append(self)
-        self._compositeModel0 = value
+        self._compositeModel0 = list(value)
 
     compositeModel0 = property(getcompositeModel0, setcompositeModel0)
 
diff --git a/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py b/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
index c1d5677..3d7be8c 100644
--- a/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
+++ b/CIM14/IEC61970/Dynamics/TurbineGovernors/GovHydro1.py
@@ -123,7 +123,7 @@ class GovHydro1(TurbineGovernor):
         for r in value:
             if self not in r._govHydro10:
                 r._govHydro10.append(self)
-        self._synchronousMachine0 = value
+        self._synchronousMachine0 = list(value)
 
     synchronousMachine0 = property(getsynchronousMachine0, setsynchronousMachine0)
 
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py b/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
index ae45784..7110400 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/PrimeMover.py
@@ -57,7 +57,7 @@ class PrimeMover(PowerSystemResource):
         for r in value:
             if self not in r._PrimeMovers:
                 r._PrimeMovers.append(self)
-        self._SynchronousMachines = value
+        self._SynchronousMachines = list(value)
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py b/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
index 9738203..5fcecb4 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/SteamSupply.py
@@ -57,7 +57,7 @@ class SteamSupply(PowerSystemResource):
         for r in value:
             if self not in r._SteamSupplys:
                 r._SteamSupplys.append(self)
-        self._SteamTurbines = value
+        self._SteamTurbines = list(value)
 
     SteamTurbines = property(getSteamTurbines, setSteamTurbines)
 
diff --git a/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py b/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
index ddb22d0..bcfd09e 100644
--- a/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
+++ b/CIM14/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
@@ -101,7 +101,7 @@ class SteamTurbine(PrimeMover):
         for r in value:
             if self not in r._SteamTurbines:
                 r._SteamTurbines.append(self)
-        self._SteamSupplys = value
+        self._SteamSupplys = list(value)
 
     SteamSupplys = property(getSteamSupplys, setSteamSupplys)
 
diff --git a/CIM14/IEC61970/Meas/Accumulator.py b/CIM14/IEC61970/Meas/Accumulator.py
index 56fc739..d9f4e41 100644
--- a/CIM14/IEC61970/Meas/Accumulator.py
+++ b/CIM14/IEC61970/Meas/Accumulator.py
@@ -61,7 +61,7 @@ class Accumulator(Measurement):
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._LimitSets = value
+        self._LimitSets = list(value)
 
     LimitSets = property(getLimitSets, setLimitSets)
 
diff --git a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
index 0633d32..6a1c898 100644
--- a/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM14/IEC61970/Meas/AccumulatorLimitSet.py
@@ -57,7 +57,7 @@ class AccumulatorLimitSet(LimitSet):
         for r in value:
             if self not in r._LimitSets:
                 r._LimitSets.append(self)
-        self._Measurements = value
+        self._Measurements = list(value)
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/IEC61970/Meas/Analog.py b/CIM14/IEC61970/Meas/Analog.py
index 848a769..be33104 100644
--- a/CIM14/IEC61970/Meas/Analog.py
+++ b/CIM14/IEC61970/Meas/Analog.py
@@ -77,7 +77,7 @@ class Analog(Measurement):
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._LimitSets = value
+        self._LimitSets = list(value)
 
     LimitSets = property(getLimitSets, setLimitSets)
 
diff --git a/CIM14/IEC61970/Meas/AnalogLimitSet.py b/CIM14/IEC61970/Meas/AnalogLimitSet.py
index 3af782e..7a29bbc 100644
--- a/CIM14/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM14/IEC61970/Meas/AnalogLimitSet.py
@@ -57,7 +57,7 @@ class AnalogLimitSet(LimitSet):
         for r in value:
             if self not in r._LimitSets:
                 r._LimitSets.append(self)
-        self._Measurements = value
+        self._Measurements = list(value)
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM14/IEC61970/Meas/Measurement.py b/CIM14/IEC61970/Meas/Measurement.py
index 9e7a863..ec98f80 100644
--- a/CIM14/IEC61970/Meas/Measurement.py
+++ b/CIM14/IEC61970/Meas/Measurement.py
@@ -97,7 +97,7 @@ class Measurement(IdentifiedObject):
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._Locations = value
+        self._Locations = list(value)
 
     Locations = property(getLocations, setLocations)
 
@@ -196,7 +196,7 @@ class Measurement(IdentifiedObject):
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._Documents = value
+        self._Documents = list(value)
 
     Documents = property(getDocuments, setDocuments)
 
diff --git a/CIM14/IEC61970/Outage/SwitchingOperation.py b/CIM14/IEC61970/Outage/SwitchingOperation.py
index d32caed..1e60d5f 100644
--- a/CIM14/IEC61970/Outage/SwitchingOperation.py
+++ b/CIM14/IEC61970/Outage/SwitchingOperation.py
@@ -65,7 +65,7 @@ class SwitchingOperation(IdentifiedObject):
         for r in value:
             if self not in r._SwitchingOperations:
                 r._SwitchingOperations.append(self)
-        self._Switches = value
+        self._Switches = list(value)
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM14/IEC61970/Protection/ProtectionEquipment.py b/CIM14/IEC61970/Protection/ProtectionEquipment.py
index fe8d98a..683b73c 100644
--- a/CIM14/IEC61970/Protection/ProtectionEquipment.py
+++ b/CIM14/IEC61970/Protection/ProtectionEquipment.py
@@ -101,7 +101,7 @@ class ProtectionEquipment(Equipment):
         for r in value:
             if self not in r._ProtectionEquipments:
                 r._ProtectionEquipments.append(self)
-        self._ConductingEquipments = value
+        self._ConductingEquipments = list(value)
 
     ConductingEquipments = property(getConductingEquipments, setConductingEquipments)
 
diff --git a/CIM14/IEC61970/SCADA/CommunicationLink.py b/CIM14/IEC61970/SCADA/CommunicationLink.py
index 36c7ce8..28dbca0 100644
--- a/CIM14/IEC61970/SCADA/CommunicationLink.py
+++ b/CIM14/IEC61970/SCADA/CommunicationLink.py
@@ -53,7 +53,7 @@ class CommunicationLink(PowerSystemResource):
         for r in value:
             if self not in r._CommunicationLinks:
                 r._CommunicationLinks.append(self)
-        self._RemoteUnits = value
+        self._RemoteUnits = list(value)
 
     RemoteUnits = property(getRemoteUnits, setRemoteUnits)
 
diff --git a/CIM14/IEC61970/SCADA/RemoteUnit.py b/CIM14/IEC61970/SCADA/RemoteUnit.py
index 6630039..3e910ac 100644
--- a/CIM14/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM14/IEC61970/SCADA/RemoteUnit.py
@@ -61,7 +61,7 @@ class RemoteUnit(PowerSystemResource):
         for r in value:
             if self not in r._RemoteUnits:
                 r._RemoteUnits.append(self)
-        self._CommunicationLinks = value
+        self._CommunicationLinks = list(value)
 
     CommunicationLinks = property(getCommunicationLinks, setCommunicationLinks)
 
diff --git a/CIM14/IEC61970/Wires/EnergyConsumer.py b/CIM14/IEC61970/Wires/EnergyConsumer.py
index 15877f0..b2c08b5 100644
--- a/CIM14/IEC61970/Wires/EnergyConsumer.py
+++ b/CIM14/IEC61970/Wires/EnergyConsumer.py
@@ -84,7 +84,7 @@ class EnergyConsumer(ConductingEquipment):
         for r in value:
             if self not in r._energyConsumer0:
                 r._energyConsumer0.append(self)
-        self._aggregateLoad0 = value
+        self._aggregateLoad0 = list(value)
 
     aggregateLoad0 = property(getaggregateLoad0, setaggregateLoad0)
 
diff --git a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
index 6dd3625..771d946 100644
--- a/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM14/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -86,7 +86,7 @@ class ReactiveCapabilityCurve(Curve):
         for r in value:
             if self not in r._ReactiveCapabilityCurves:
                 r._ReactiveCapabilityCurves.append(self)
-        self._SynchronousMachines = value
+        self._SynchronousMachines = list(value)
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM14/IEC61970/Wires/Switch.py b/CIM14/IEC61970/Wires/Switch.py
index 180893c..512769c 100644
--- a/CIM14/IEC61970/Wires/Switch.py
+++ b/CIM14/IEC61970/Wires/Switch.py
@@ -81,7 +81,7 @@ class Switch(ConductingEquipment):
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
-        self._SwitchingOperations = value
+        self._SwitchingOperations = list(value)
 
     SwitchingOperations = property(getSwitchingOperations, setSwitchingOperations)
 
@@ -126,7 +126,7 @@ class Switch(ConductingEquipment):
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
-        self._ConnectDisconnectFunctions = value
+        self._ConnectDisconnectFunctions = list(value)
 
     ConnectDisconnectFunctions = property(getConnectDisconnectFunctions, setConnectDisconnectFunctions)
 
diff --git a/CIM14/IEC61970/Wires/SynchronousMachine.py b/CIM14/IEC61970/Wires/SynchronousMachine.py
index 73721a6..f0c58cd 100644
--- a/CIM14/IEC61970/Wires/SynchronousMachine.py
+++ b/CIM14/IEC61970/Wires/SynchronousMachine.py
@@ -196,7 +196,7 @@ class SynchronousMachine(RotatingMachine):
         for r in value:
             if self not in r._synchronousMachine0:
                 r._synchronousMachine0.append(self)
-        self._genLoad0 = value
+        self._genLoad0 = list(value)
 
     genLoad0 = property(getgenLoad0, setgenLoad0)
 
@@ -257,7 +257,7 @@ class SynchronousMachine(RotatingMachine):
         for r in value:
             if self not in r._synchronousMachine0:
                 r._synchronousMachine0.append(self)
-        self._govHydro10 = value
+        self._govHydro10 = list(value)
 
     govHydro10 = property(getgovHydro10, setgovHydro10)
 
@@ -286,7 +286,7 @@ class SynchronousMachine(RotatingMachine):
         for r in value:
             if self not in r._SynchronousMachines:
                 r._SynchronousMachines.append(self)
-        self._PrimeMovers = value
+        self._PrimeMovers = list(value)
 
     PrimeMovers = property(getPrimeMovers, setPrimeMovers)
 
@@ -331,7 +331,7 @@ class SynchronousMachine(RotatingMachine):
         for r in value:
             if self not in r._synchronousMachine0:
                 r._synchronousMachine0.append(self)
-        self._genEquiv0 = value
+        self._genEquiv0 = list(value)
 
     genEquiv0 = property(getgenEquiv0, setgenEquiv0)
 
@@ -360,7 +360,7 @@ class SynchronousMachine(RotatingMachine):
         for r in value:
             if self not in r._SynchronousMachines:
                 r._SynchronousMachines.append(self)
-        self._ReactiveCapabilityCurves = value
+        self._ReactiveCapabilityCurves = list(value)
 
     ReactiveCapabilityCurves = property(getReactiveCapabilityCurves, setReactiveCapabilityCurves)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
index 4d70fb8..9fc61b3 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerEnd.py
@@ -86,7 +86,7 @@ class TransformerEnd(IdentifiedObject):
         for r in value:
             if self not in r._ToTransformerEnd:
                 r._ToTransformerEnd.append(self)
-        self._ToMeshImpedance = value
+        self._ToMeshImpedance = list(value)
 
     ToMeshImpedance = property(getToMeshImpedance, setToMeshImpedance)
 
diff --git a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
index af3a4a1..9944de9 100644
--- a/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
+++ b/CIM15/CDPSM/Balanced/IEC61970/Wires/TransformerMeshImpedance.py
@@ -90,7 +90,7 @@ class TransformerMeshImpedance(IdentifiedObject):
         for r in value:
             if self not in r._ToMeshImpedance:
                 r._ToMeshImpedance.append(self)
-        self._ToTransformerEnd = value
+        self._ToTransformerEnd = list(value)
 
     ToTransformerEnd = property(getToTransformerEnd, setToTransformerEnd)
 
diff --git a/CIM15/IEC61968/AssetModels/ShortCircuitTest.py b/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
index 8f56cfb..89ef3ca 100644
--- a/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
+++ b/CIM15/IEC61968/AssetModels/ShortCircuitTest.py
@@ -81,7 +81,7 @@ class ShortCircuitTest(TransformerTest):
         for r in value:
             if self not in r._GroundedEndShortCircuitTests:
                 r._GroundedEndShortCircuitTests.append(self)
-        self._GroundedEnds = value
+        self._GroundedEnds = list(value)
 
     GroundedEnds = property(getGroundedEnds, setGroundedEnds)
 
diff --git a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
index 11b8ccb..0cc3d8d 100644
--- a/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
+++ b/CIM15/IEC61968/AssetModels/TransformerEndInfo.py
@@ -188,7 +188,7 @@ class TransformerEndInfo(AssetInfo):
         for r in value:
             if self not in r._ToTransformerEndInfo:
                 r._ToTransformerEndInfo.append(self)
-        self._ToMeshImpedance = value
+        self._ToMeshImpedance = list(value)
 
     ToMeshImpedance = property(getToMeshImpedance, setToMeshImpedance)
 
@@ -276,7 +276,7 @@ class TransformerEndInfo(AssetInfo):
         for r in value:
             if self not in r._GroundedEnds:
                 r._GroundedEnds.append(self)
-        self._GroundedEndShortCircuitTests = value
+        self._GroundedEndShortCircuitTests = list(value)
 
     GroundedEndShortCircuitTests = property(getGroundedEndShortCircuitTests, setGroundedEndShortCircuitTests)
 
diff --git a/CIM15/IEC61968/Assets/Asset.py b/CIM15/IEC61968/Assets/Asset.py
index 4a5fdea..b5b4efc 100644
--- a/CIM15/IEC61968/Assets/Asset.py
+++ b/CIM15/IEC61968/Assets/Asset.py
@@ -217,7 +217,7 @@ class Asset(IdentifiedObject):
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._Mediums = value
+        self._Mediums = list(value)
 
     Mediums = property(getMediums, setMediums)
 
@@ -245,7 +245,7 @@ class Asset(IdentifiedObject):
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._ErpRecDeliveryItems = value
+        self._ErpRecDeliveryItems = list(value)
 
     ErpRecDeliveryItems = property(getErpRecDeliveryItems, setErpRecDeliveryItems)
 
@@ -274,7 +274,7 @@ class Asset(IdentifiedObject):
         for r in value:
             if self not in r._RatingAssets:
                 r._RatingAssets.append(self)
-        self._Ratings = value
+        self._Ratings = list(value)
 
     Ratings = property(getRatings, setRatings)
 
@@ -395,7 +395,7 @@ class Asset(IdentifiedObject):
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._ReliabilityInfos = value
+        self._ReliabilityInfos = list(value)
 
     ReliabilityInfos = property(getReliabilityInfos, setReliabilityInfos)
 
@@ -478,7 +478,7 @@ class Asset(IdentifiedObject):
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._ScheduledEvents = value
+        self._ScheduledEvents = list(value)
 
     ScheduledEvents = property(getScheduledEvents, setScheduledEvents)
 
@@ -522,7 +522,7 @@ class Asset(IdentifiedObject):
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._AssetPropertyCurves = value
+        self._AssetPropertyCurves = list(value)
 
     AssetPropertyCurves = property(getAssetPropertyCurves, setAssetPropertyCurves)
 
@@ -571,7 +571,7 @@ class Asset(IdentifiedObject):
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._ActivityRecords = value
+        self._ActivityRecords = list(value)
 
     ActivityRecords = property(getActivityRecords, setActivityRecords)
 
@@ -620,7 +620,7 @@ class Asset(IdentifiedObject):
         for r in value:
             if self not in r._Assets:
                 r._Assets.append(self)
-        self._PowerSystemResources = value
+        self._PowerSystemResources = list(value)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
@@ -664,7 +664,7 @@ class Asset(IdentifiedObject):
         for r in value:
             if self not in r._PropertyAssets:
                 r._PropertyAssets.append(self)
-        self._Properties = value
+        self._Properties = list(value)
 
     Properties = property(getProperties, setProperties)
 
diff --git a/CIM15/IEC61968/Assets/AssetContainer.py b/CIM15/IEC61968/Assets/AssetContainer.py
index cda91e5..22cfc7e 100644
--- a/CIM15/IEC61968/Assets/AssetContainer.py
+++ b/CIM15/IEC61968/Assets/AssetContainer.py
@@ -101,7 +101,7 @@ class AssetContainer(Asset):
         for r in value:
             if self not in r._AssetContainers:
                 r._AssetContainers.append(self)
-        self._LandProperties = value
+        self._LandProperties = list(value)
 
     LandProperties = property(getLandProperties, setLandProperties)
 
diff --git a/CIM15/IEC61968/Common/ActivityRecord.py b/CIM15/IEC61968/Common/ActivityRecord.py
index 268c9a7..1d83bc5 100644
--- a/CIM15/IEC61968/Common/ActivityRecord.py
+++ b/CIM15/IEC61968/Common/ActivityRecord.py
@@ -87,7 +87,7 @@ class ActivityRecord(IdentifiedObject):
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
-        self._ErpPersons = value
+        self._ErpPersons = list(value)
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
@@ -115,7 +115,7 @@ class ActivityRecord(IdentifiedObject):
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
-        self._Organisations = value
+        self._Organisations = list(value)
 
     Organisations = property(getOrganisations, setOrganisations)
 
@@ -144,7 +144,7 @@ class ActivityRecord(IdentifiedObject):
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
-        self._Documents = value
+        self._Documents = list(value)
 
     Documents = property(getDocuments, setDocuments)
 
@@ -173,7 +173,7 @@ class ActivityRecord(IdentifiedObject):
         for r in value:
             if self not in r._ActivityRecords:
                 r._ActivityRecords.append(self)
-        self._Assets = value
+        self._Assets = list(value)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM15/IEC61968/Common/CoordinateSystem.py b/CIM15/IEC61968/Common/CoordinateSystem.py
index 14f92bf..6b266ba 100644
--- a/CIM15/IEC61968/Common/CoordinateSystem.py
+++ b/CIM15/IEC61968/Common/CoordinateSystem.py
@@ -105,7 +105,7 @@ class CoordinateSystem(IdentifiedObject):
         for r in value:
             if self not in r._CoordinateSystems:
                 r._CoordinateSystems.append(self)
-        self._GmlDiagramObjects = value
+        self._GmlDiagramObjects = list(value)
 
     GmlDiagramObjects = property(getGmlDiagramObjects, setGmlDiagramObjects)
 
diff --git a/CIM15/IEC61968/Common/Document.py b/CIM15/IEC61968/Common/Document.py
index 5d43c9b..b734b3c 100644
--- a/CIM15/IEC61968/Common/Document.py
+++ b/CIM15/IEC61968/Common/Document.py
@@ -176,7 +176,7 @@ class Document(IdentifiedObject):
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._NetworkDataSets = value
+        self._NetworkDataSets = list(value)
 
     NetworkDataSets = property(getNetworkDataSets, setNetworkDataSets)
 
@@ -224,7 +224,7 @@ class Document(IdentifiedObject):
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._ScheduleParameterInfos = value
+        self._ScheduleParameterInfos = list(value)
 
     ScheduleParameterInfos = property(getScheduleParameterInfos, setScheduleParameterInfos)
 
@@ -273,7 +273,7 @@ class Document(IdentifiedObject):
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._Measurements = value
+        self._Measurements = list(value)
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -302,7 +302,7 @@ class Document(IdentifiedObject):
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._ActivityRecords = value
+        self._ActivityRecords = list(value)
 
     ActivityRecords = property(getActivityRecords, setActivityRecords)
 
@@ -330,7 +330,7 @@ class Document(IdentifiedObject):
         for r in value:
             if self not in r._Documents:
                 r._Documents.append(self)
-        self._ChangeSets = value
+        self._ChangeSets = list(value)
 
     ChangeSets = property(getChangeSets, setChangeSets)
 
diff --git a/CIM15/IEC61968/Common/Location.py b/CIM15/IEC61968/Common/Location.py
index 2a0114d..ae0078c 100644
--- a/CIM15/IEC61968/Common/Location.py
+++ b/CIM15/IEC61968/Common/Location.py
@@ -191,7 +191,7 @@ class Location(IdentifiedObject):
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._RedLines = value
+        self._RedLines = list(value)
 
     RedLines = property(getRedLines, setRedLines)
 
@@ -235,7 +235,7 @@ class Location(IdentifiedObject):
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._LandProperties = value
+        self._LandProperties = list(value)
 
     LandProperties = property(getLandProperties, setLandProperties)
 
@@ -284,7 +284,7 @@ class Location(IdentifiedObject):
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._Hazards = value
+        self._Hazards = list(value)
 
     Hazards = property(getHazards, setHazards)
 
@@ -315,7 +315,7 @@ class Location(IdentifiedObject):
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._Crews = value
+        self._Crews = list(value)
 
     Crews = property(getCrews, setCrews)
 
@@ -387,7 +387,7 @@ class Location(IdentifiedObject):
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._Measurements = value
+        self._Measurements = list(value)
 
     Measurements = property(getMeasurements, setMeasurements)
 
@@ -415,7 +415,7 @@ class Location(IdentifiedObject):
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._Routes = value
+        self._Routes = list(value)
 
     Routes = property(getRoutes, setRoutes)
 
@@ -460,7 +460,7 @@ class Location(IdentifiedObject):
         for r in value:
             if self not in r._Locations:
                 r._Locations.append(self)
-        self._ErpOrganisations = value
+        self._ErpOrganisations = list(value)
 
     ErpOrganisations = property(getErpOrganisations, setErpOrganisations)
 
diff --git a/CIM15/IEC61968/Common/Organisation.py b/CIM15/IEC61968/Common/Organisation.py
index 2c92fd4..44f7cdf 100644
--- a/CIM15/IEC61968/Common/Organisation.py
+++ b/CIM15/IEC61968/Common/Organisation.py
@@ -82,7 +82,7 @@ class Organisation(IdentifiedObject):
         for r in value:
             if self not in r._Organisations:
                 r._Organisations.append(self)
-        self._BusinessRoles = value
+        self._BusinessRoles = list(value)
 
     BusinessRoles = property(getBusinessRoles, setBusinessRoles)
 
diff --git a/CIM15/IEC61968/Common/UserAttribute.py b/CIM15/IEC61968/Common/UserAttribute.py
index ff2ecfe..1730142 100644
--- a/CIM15/IEC61968/Common/UserAttribute.py
+++ b/CIM15/IEC61968/Common/UserAttribute.py
@@ -96,7 +96,7 @@ class UserAttribute(Element):
         for r in value:
             if self not in r._UserAttributes:
                 r._UserAttributes.append(self)
-        self._ErpLedgerEntries = value
+        self._ErpLedgerEntries = list(value)
 
     ErpLedgerEntries = property(getErpLedgerEntries, setErpLedgerEntries)
 
@@ -124,7 +124,7 @@ class UserAttribute(Element):
         for r in value:
             if self not in r._Properties:
                 r._Properties.append(self)
-        self._ProcedureDataSets = value
+        self._ProcedureDataSets = list(value)
 
     ProcedureDataSets = property(getProcedureDataSets, setProcedureDataSets)
 
@@ -201,7 +201,7 @@ class UserAttribute(Element):
         for r in value:
             if self not in r._Properties:
                 r._Properties.append(self)
-        self._PropertyAssets = value
+        self._PropertyAssets = list(value)
 
     PropertyAssets = property(getPropertyAssets, setPropertyAssets)
 
@@ -245,7 +245,7 @@ class UserAttribute(Element):
         for r in value:
             if self not in r._UserAttributes:
                 r._UserAttributes.append(self)
-        self._ErpInvoiceLineItems = value
+        self._ErpInvoiceLineItems = list(value)
 
     ErpInvoiceLineItems = property(getErpInvoiceLineItems, setErpInvoiceLineItems)
 
@@ -273,7 +273,7 @@ class UserAttribute(Element):
         for r in value:
             if self not in r._Ratings:
                 r._Ratings.append(self)
-        self._RatingAssets = value
+        self._RatingAssets = list(value)
 
     RatingAssets = property(getRatingAssets, setRatingAssets)
 
diff --git a/CIM15/IEC61968/Customers/Customer.py b/CIM15/IEC61968/Customers/Customer.py
index a71c601..4f98099 100644
--- a/CIM15/IEC61968/Customers/Customer.py
+++ b/CIM15/IEC61968/Customers/Customer.py
@@ -158,7 +158,7 @@ class Customer(Organisation):
         for r in value:
             if self not in r._Customers:
                 r._Customers.append(self)
-        self._Works = value
+        self._Works = list(value)
 
     Works = property(getWorks, setWorks)
 
@@ -205,7 +205,7 @@ class Customer(Organisation):
         for r in value:
             if self not in r._CustomerDatas:
                 r._CustomerDatas.append(self)
-        self._OutageNotifications = value
+        self._OutageNotifications = list(value)
 
     OutageNotifications = property(getOutageNotifications, setOutageNotifications)
 
diff --git a/CIM15/IEC61968/Customers/CustomerAgreement.py b/CIM15/IEC61968/Customers/CustomerAgreement.py
index cfdbd6f..2f62355 100644
--- a/CIM15/IEC61968/Customers/CustomerAgreement.py
+++ b/CIM15/IEC61968/Customers/CustomerAgreement.py
@@ -109,7 +109,7 @@ class CustomerAgreement(Agreement):
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._PricingStructures = value
+        self._PricingStructures = list(value)
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
@@ -212,7 +212,7 @@ class CustomerAgreement(Agreement):
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._Equipments = value
+        self._Equipments = list(value)
 
     Equipments = property(getEquipments, setEquipments)
 
@@ -258,7 +258,7 @@ class CustomerAgreement(Agreement):
         for r in value:
             if self not in r._CustomerAgreements:
                 r._CustomerAgreements.append(self)
-        self._ServiceLocations = value
+        self._ServiceLocations = list(value)
 
     ServiceLocations = property(getServiceLocations, setServiceLocations)
 
diff --git a/CIM15/IEC61968/Customers/PricingStructure.py b/CIM15/IEC61968/Customers/PricingStructure.py
index d589848..16d3e2e 100644
--- a/CIM15/IEC61968/Customers/PricingStructure.py
+++ b/CIM15/IEC61968/Customers/PricingStructure.py
@@ -110,7 +110,7 @@ class PricingStructure(Document):
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
-        self._CustomerAgreements = value
+        self._CustomerAgreements = list(value)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
@@ -139,7 +139,7 @@ class PricingStructure(Document):
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
-        self._ServiceDeliveryPoints = value
+        self._ServiceDeliveryPoints = list(value)
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
@@ -168,7 +168,7 @@ class PricingStructure(Document):
         for r in value:
             if self not in r._PricingStructures:
                 r._PricingStructures.append(self)
-        self._Tariffs = value
+        self._Tariffs = list(value)
 
     Tariffs = property(getTariffs, setTariffs)
 
diff --git a/CIM15/IEC61968/Customers/ServiceLocation.py b/CIM15/IEC61968/Customers/ServiceLocation.py
index 63392a6..d0ec8e9 100644
--- a/CIM15/IEC61968/Customers/ServiceLocation.py
+++ b/CIM15/IEC61968/Customers/ServiceLocation.py
@@ -139,7 +139,7 @@ class ServiceLocation(Location):
         for r in value:
             if self not in r._ServiceLocations:
                 r._ServiceLocations.append(self)
-        self._CustomerAgreements = value
+        self._CustomerAgreements = list(value)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM15/IEC61968/Customers/Tariff.py b/CIM15/IEC61968/Customers/Tariff.py
index 386847c..630f03d 100644
--- a/CIM15/IEC61968/Customers/Tariff.py
+++ b/CIM15/IEC61968/Customers/Tariff.py
@@ -65,7 +65,7 @@ class Tariff(Document):
         for r in value:
             if self not in r._Tariffs:
                 r._Tariffs.append(self)
-        self._PricingStructures = value
+        self._PricingStructures = list(value)
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
@@ -94,7 +94,7 @@ class Tariff(Document):
         for r in value:
             if self not in r._Tariffs:
                 r._Tariffs.append(self)
-        self._TariffProfiles = value
+        self._TariffProfiles = list(value)
 
     TariffProfiles = property(getTariffProfiles, setTariffProfiles)
 
diff --git a/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py b/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
index 77ae0e4..abfe20d 100644
--- a/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
+++ b/CIM15/IEC61968/LoadControl/ConnectDisconnectFunction.py
@@ -86,7 +86,7 @@ class ConnectDisconnectFunction(EndDeviceFunction):
         for r in value:
             if self not in r._ConnectDisconnectFunctions:
                 r._ConnectDisconnectFunctions.append(self)
-        self._Switches = value
+        self._Switches = list(value)
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM15/IEC61968/Metering/EndDevice.py b/CIM15/IEC61968/Metering/EndDevice.py
index a03cafa..da021ca 100644
--- a/CIM15/IEC61968/Metering/EndDevice.py
+++ b/CIM15/IEC61968/Metering/EndDevice.py
@@ -195,7 +195,7 @@ class EndDevice(AssetContainer):
         for r in value:
             if self not in r._EndDevices:
                 r._EndDevices.append(self)
-        self._EndDeviceGroups = value
+        self._EndDeviceGroups = list(value)
 
     EndDeviceGroups = property(getEndDeviceGroups, setEndDeviceGroups)
 
diff --git a/CIM15/IEC61968/Metering/EndDeviceGroup.py b/CIM15/IEC61968/Metering/EndDeviceGroup.py
index ad4bd34..a976e87 100644
--- a/CIM15/IEC61968/Metering/EndDeviceGroup.py
+++ b/CIM15/IEC61968/Metering/EndDeviceGroup.py
@@ -86,7 +86,7 @@ class EndDeviceGroup(IdentifiedObject):
         for r in value:
             if self not in r._EndDeviceGroups:
                 r._EndDeviceGroups.append(self)
-        self._EndDevices = value
+        self._EndDevices = list(value)
 
     EndDevices = property(getEndDevices, setEndDevices)
 
diff --git a/CIM15/IEC61968/Metering/IntervalBlock.py b/CIM15/IEC61968/Metering/IntervalBlock.py
index 5a9edf3..5be94c7 100644
--- a/CIM15/IEC61968/Metering/IntervalBlock.py
+++ b/CIM15/IEC61968/Metering/IntervalBlock.py
@@ -82,7 +82,7 @@ class IntervalBlock(Element):
         for r in value:
             if self not in r._IntervalBlocks:
                 r._IntervalBlocks.append(self)
-        self._IntervalReadings = value
+        self._IntervalReadings = list(value)
 
     IntervalReadings = property(getIntervalReadings, setIntervalReadings)
 
diff --git a/CIM15/IEC61968/Metering/IntervalReading.py b/CIM15/IEC61968/Metering/IntervalReading.py
index d8a1f6e..99ec73c 100644
--- a/CIM15/IEC61968/Metering/IntervalReading.py
+++ b/CIM15/IEC61968/Metering/IntervalReading.py
@@ -61,7 +61,7 @@ class IntervalReading(MeasurementValue):
         for r in value:
             if self not in r._IntervalReadings:
                 r._IntervalReadings.append(self)
-        self._IntervalBlocks = value
+        self._IntervalBlocks = list(value)
 
     IntervalBlocks = property(getIntervalBlocks, setIntervalBlocks)
 
diff --git a/CIM15/IEC61968/Metering/MeterReading.py b/CIM15/IEC61968/Metering/MeterReading.py
index 0350e21..49e175b 100644
--- a/CIM15/IEC61968/Metering/MeterReading.py
+++ b/CIM15/IEC61968/Metering/MeterReading.py
@@ -117,7 +117,7 @@ class MeterReading(IdentifiedObject):
         for r in value:
             if self not in r._MeterReadings:
                 r._MeterReadings.append(self)
-        self._Readings = value
+        self._Readings = list(value)
 
     Readings = property(getReadings, setReadings)
 
diff --git a/CIM15/IEC61968/Metering/Reading.py b/CIM15/IEC61968/Metering/Reading.py
index a221659..bd9a018 100644
--- a/CIM15/IEC61968/Metering/Reading.py
+++ b/CIM15/IEC61968/Metering/Reading.py
@@ -82,7 +82,7 @@ class Reading(MeasurementValue):
         for r in value:
             if self not in r._Readings:
                 r._Readings.append(self)
-        self._MeterReadings = value
+        self._MeterReadings = list(value)
 
     MeterReadings = property(getMeterReadings, setMeterReadings)
 
diff --git a/CIM15/IEC61968/Metering/SDPLocation.py b/CIM15/IEC61968/Metering/SDPLocation.py
index 9ac0aea..8f98918 100644
--- a/CIM15/IEC61968/Metering/SDPLocation.py
+++ b/CIM15/IEC61968/Metering/SDPLocation.py
@@ -69,7 +69,7 @@ class SDPLocation(Location):
         for r in value:
             if self not in r._SDPLocations:
                 r._SDPLocations.append(self)
-        self._ServiceDeliveryPoints = value
+        self._ServiceDeliveryPoints = list(value)
 
     ServiceDeliveryPoints = property(getServiceDeliveryPoints, setServiceDeliveryPoints)
 
diff --git a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
index 268490b..1e8248a 100644
--- a/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
+++ b/CIM15/IEC61968/Metering/ServiceDeliveryPoint.py
@@ -129,7 +129,7 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for r in value:
             if self not in r._ServiceDeliveryPoints:
                 r._ServiceDeliveryPoints.append(self)
-        self._SDPLocations = value
+        self._SDPLocations = list(value)
 
     SDPLocations = property(getSDPLocations, setSDPLocations)
 
@@ -234,7 +234,7 @@ class ServiceDeliveryPoint(IdentifiedObject):
         for r in value:
             if self not in r._ServiceDeliveryPoints:
                 r._ServiceDeliveryPoints.append(self)
-        self._PricingStructures = value
+        self._PricingStructures = list(value)
 
     PricingStructures = property(getPricingStructures, setPricingStructures)
 
diff --git a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
index a293cc5..7f99b3f 100644
--- a/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/AuxiliaryAccount.py
@@ -102,7 +102,7 @@ class AuxiliaryAccount(Document):
         for r in value:
             if self not in r._AuxiliaryAccounts:
                 r._AuxiliaryAccounts.append(self)
-        self._Charges = value
+        self._Charges = list(value)
 
     Charges = property(getCharges, setCharges)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Charge.py b/CIM15/IEC61968/PaymentMetering/Charge.py
index 4813c06..a2f9d41 100644
--- a/CIM15/IEC61968/PaymentMetering/Charge.py
+++ b/CIM15/IEC61968/PaymentMetering/Charge.py
@@ -80,7 +80,7 @@ class Charge(IdentifiedObject):
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
-        self._ConsumptionTariffIntervals = value
+        self._ConsumptionTariffIntervals = list(value)
 
     ConsumptionTariffIntervals = property(getConsumptionTariffIntervals, setConsumptionTariffIntervals)
 
@@ -109,7 +109,7 @@ class Charge(IdentifiedObject):
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
-        self._TimeTariffIntervals = value
+        self._TimeTariffIntervals = list(value)
 
     TimeTariffIntervals = property(getTimeTariffIntervals, setTimeTariffIntervals)
 
@@ -138,7 +138,7 @@ class Charge(IdentifiedObject):
         for r in value:
             if self not in r._Charges:
                 r._Charges.append(self)
-        self._AuxiliaryAccounts = value
+        self._AuxiliaryAccounts = list(value)
 
     AuxiliaryAccounts = property(getAuxiliaryAccounts, setAuxiliaryAccounts)
 
diff --git a/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py b/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
index 2c7ef29..6abd51e 100644
--- a/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
+++ b/CIM15/IEC61968/PaymentMetering/ConsumptionTariffInterval.py
@@ -69,7 +69,7 @@ class ConsumptionTariffInterval(Element):
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
-        self._Charges = value
+        self._Charges = list(value)
 
     Charges = property(getCharges, setCharges)
 
@@ -98,7 +98,7 @@ class ConsumptionTariffInterval(Element):
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
-        self._TariffProfiles = value
+        self._TariffProfiles = list(value)
 
     TariffProfiles = property(getTariffProfiles, setTariffProfiles)
 
@@ -127,7 +127,7 @@ class ConsumptionTariffInterval(Element):
         for r in value:
             if self not in r._ConsumptionTariffIntervals:
                 r._ConsumptionTariffIntervals.append(self)
-        self._TouTariffIntervals = value
+        self._TouTariffIntervals = list(value)
 
     TouTariffIntervals = property(getTouTariffIntervals, setTouTariffIntervals)
 
diff --git a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
index 0eecb2d..fa7178c 100644
--- a/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
+++ b/CIM15/IEC61968/PaymentMetering/MerchantAccount.py
@@ -86,7 +86,7 @@ class MerchantAccount(Document):
         for r in value:
             if self not in r._MerchantAccounts:
                 r._MerchantAccounts.append(self)
-        self._Transactors = value
+        self._Transactors = list(value)
 
     Transactors = property(getTransactors, setTransactors)
 
diff --git a/CIM15/IEC61968/PaymentMetering/TariffProfile.py b/CIM15/IEC61968/PaymentMetering/TariffProfile.py
index 1bc22ad..1caa35f 100644
--- a/CIM15/IEC61968/PaymentMetering/TariffProfile.py
+++ b/CIM15/IEC61968/PaymentMetering/TariffProfile.py
@@ -65,7 +65,7 @@ class TariffProfile(Document):
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
-        self._Tariffs = value
+        self._Tariffs = list(value)
 
     Tariffs = property(getTariffs, setTariffs)
 
@@ -94,7 +94,7 @@ class TariffProfile(Document):
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
-        self._ConsumptionTariffIntervals = value
+        self._ConsumptionTariffIntervals = list(value)
 
     ConsumptionTariffIntervals = property(getConsumptionTariffIntervals, setConsumptionTariffIntervals)
 
@@ -123,7 +123,7 @@ class TariffProfile(Document):
         for r in value:
             if self not in r._TariffProfiles:
                 r._TariffProfiles.append(self)
-        self._TimeTariffIntervals = value
+        self._TimeTariffIntervals = list(value)
 
     TimeTariffIntervals = property(getTimeTariffIntervals, setTimeTariffIntervals)
 
diff --git a/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py b/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
index 33267a8..3600aa3 100644
--- a/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
+++ b/CIM15/IEC61968/PaymentMetering/TimeTariffInterval.py
@@ -69,7 +69,7 @@ class TimeTariffInterval(Element):
         for r in value:
             if self not in r._TouTariffIntervals:
                 r._TouTariffIntervals.append(self)
-        self._ConsumptionTariffIntervals = value
+        self._ConsumptionTariffIntervals = list(value)
 
     ConsumptionTariffIntervals = property(getConsumptionTariffIntervals, setConsumptionTariffIntervals)
 
@@ -98,7 +98,7 @@ class TimeTariffInterval(Element):
         for r in value:
             if self not in r._TimeTariffIntervals:
                 r._TimeTariffIntervals.append(self)
-        self._TariffProfiles = value
+        self._TariffProfiles = list(value)
 
     TariffProfiles = property(getTariffProfiles, setTariffProfiles)
 
@@ -127,7 +127,7 @@ class TimeTariffInterval(Element):
         for r in value:
             if self not in r._TimeTariffIntervals:
                 r._TimeTariffIntervals.append(self)
-        self._Charges = value
+        self._Charges = list(value)
 
     Charges = property(getCharges, setCharges)
 
diff --git a/CIM15/IEC61968/PaymentMetering/Transactor.py b/CIM15/IEC61968/PaymentMetering/Transactor.py
index 94ba51f..3fb6bb9 100644
--- a/CIM15/IEC61968/PaymentMetering/Transactor.py
+++ b/CIM15/IEC61968/PaymentMetering/Transactor.py
@@ -53,7 +53,7 @@ class Transactor(IdentifiedObject):
         for r in value:
             if self not in r._Transactors:
                 r._Transactors.append(self)
-        self._MerchantAccounts = value
+        self._MerchantAccounts = list(value)
 
     MerchantAccounts = property(getMerchantAccounts, setMerchantAccounts)
 
diff --git a/CIM15/IEC61968/Work/Work.py b/CIM15/IEC61968/Work/Work.py
index 480597e..86ab17c 100644
--- a/CIM15/IEC61968/Work/Work.py
+++ b/CIM15/IEC61968/Work/Work.py
@@ -120,7 +120,7 @@ class Work(Document):
         for r in value:
             if self not in r._Works:
                 r._Works.append(self)
-        self._WorkCostDetails = value
+        self._WorkCostDetails = list(value)
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
@@ -269,7 +269,7 @@ class Work(Document):
         for r in value:
             if self not in r._Works:
                 r._Works.append(self)
-        self._Customers = value
+        self._Customers = list(value)
 
     Customers = property(getCustomers, setCustomers)
 
diff --git a/CIM15/IEC61970/Core/ConductingEquipment.py b/CIM15/IEC61970/Core/ConductingEquipment.py
index 3f99ab4..2ce6e2d 100644
--- a/CIM15/IEC61970/Core/ConductingEquipment.py
+++ b/CIM15/IEC61970/Core/ConductingEquipment.py
@@ -111,7 +111,7 @@ class ConductingEquipment(Equipment):
         for r in value:
             if self not in r._ConductingEquipments:
                 r._ConductingEquipments.append(self)
-        self._ProtectionEquipments = value
+        self._ProtectionEquipments = list(value)
 
     ProtectionEquipments = property(getProtectionEquipments, setProtectionEquipments)
 
diff --git a/CIM15/IEC61970/Core/Equipment.py b/CIM15/IEC61970/Core/Equipment.py
index a5d839f..a5c0c8d 100644
--- a/CIM15/IEC61970/Core/Equipment.py
+++ b/CIM15/IEC61970/Core/Equipment.py
@@ -94,7 +94,7 @@ class Equipment(PowerSystemResource):
         for r in value:
             if self not in r._Equipments:
                 r._Equipments.append(self)
-        self._CustomerAgreements = value
+        self._CustomerAgreements = list(value)
 
     CustomerAgreements = property(getCustomerAgreements, setCustomerAgreements)
 
diff --git a/CIM15/IEC61970/Core/PowerSystemResource.py b/CIM15/IEC61970/Core/PowerSystemResource.py
index d6fc127..e831ae9 100644
--- a/CIM15/IEC61970/Core/PowerSystemResource.py
+++ b/CIM15/IEC61970/Core/PowerSystemResource.py
@@ -128,7 +128,7 @@ class PowerSystemResource(IdentifiedObject):
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._ScheduleSteps = value
+        self._ScheduleSteps = list(value)
 
     ScheduleSteps = property(getScheduleSteps, setScheduleSteps)
 
@@ -217,7 +217,7 @@ class PowerSystemResource(IdentifiedObject):
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._PsrLists = value
+        self._PsrLists = list(value)
 
     PsrLists = property(getPsrLists, setPsrLists)
 
@@ -267,7 +267,7 @@ class PowerSystemResource(IdentifiedObject):
         for r in value:
             if self not in r._PowerSystemResource:
                 r._PowerSystemResource.append(self)
-        self._ReportingGroup = value
+        self._ReportingGroup = list(value)
 
     ReportingGroup = property(getReportingGroup, setReportingGroup)
 
@@ -313,7 +313,7 @@ class PowerSystemResource(IdentifiedObject):
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._Assets = value
+        self._Assets = list(value)
 
     Assets = property(getAssets, setAssets)
 
@@ -399,7 +399,7 @@ class PowerSystemResource(IdentifiedObject):
         for r in value:
             if self not in r._PowerSystemResources:
                 r._PowerSystemResources.append(self)
-        self._NetworkDataSets = value
+        self._NetworkDataSets = list(value)
 
     NetworkDataSets = property(getNetworkDataSets, setNetworkDataSets)
 
diff --git a/CIM15/IEC61970/Core/PsrList.py b/CIM15/IEC61970/Core/PsrList.py
index 150d38d..45196a2 100644
--- a/CIM15/IEC61970/Core/PsrList.py
+++ b/CIM15/IEC61970/Core/PsrList.py
@@ -56,7 +56,7 @@ class PsrList(IdentifiedObject):
         for r in value:
             if self not in r._PsrLists:
                 r._PsrLists.append(self)
-        self._PowerSystemResources = value
+        self._PowerSystemResources = list(value)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM15/IEC61970/Core/ReportingGroup.py b/CIM15/IEC61970/Core/ReportingGroup.py
index 713ad80..ec74366 100644
--- a/CIM15/IEC61970/Core/ReportingGroup.py
+++ b/CIM15/IEC61970/Core/ReportingGroup.py
@@ -124,7 +124,7 @@ class ReportingGroup(IdentifiedObject):
         for r in value:
             if self not in r._ReportingGroup:
                 r._ReportingGroup.append(self)
-        self._PowerSystemResource = value
+        self._PowerSystemResource = list(value)
 
     PowerSystemResource = property(getPowerSystemResource, setPowerSystemResource)
 
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py b/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
index ccf8bbd..bfe144b 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/PrimeMover.py
@@ -57,7 +57,7 @@ class PrimeMover(PowerSystemResource):
         for r in value:
             if self not in r._PrimeMovers:
                 r._PrimeMovers.append(self)
-        self._SynchronousMachines = value
+        self._SynchronousMachines = list(value)
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py b/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
index 020901c..c8d6480 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/SteamSupply.py
@@ -57,7 +57,7 @@ class SteamSupply(PowerSystemResource):
         for r in value:
             if self not in r._SteamSupplys:
                 r._SteamSupplys.append(self)
-        self._SteamTurbines = value
+        self._SteamTurbines = list(value)
 
     SteamTurbines = property(getSteamTurbines, setSteamTurbines)
 
diff --git a/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py b/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
index cbc0bf6..6655222 100644
--- a/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
+++ b/CIM15/IEC61970/Generation/GenerationDynamics/SteamTurbine.py
@@ -101,7 +101,7 @@ class SteamTurbine(PrimeMover):
         for r in value:
             if self not in r._SteamTurbines:
                 r._SteamTurbines.append(self)
-        self._SteamSupplys = value
+        self._SteamSupplys = list(value)
 
     SteamSupplys = property(getSteamSupplys, setSteamSupplys)
 
diff --git a/CIM15/IEC61970/Graphics/DiagramObject.py b/CIM15/IEC61970/Graphics/DiagramObject.py
index 6a4f6d0..29fd655 100644
--- a/CIM15/IEC61970/Graphics/DiagramObject.py
+++ b/CIM15/IEC61970/Graphics/DiagramObject.py
@@ -89,7 +89,7 @@ class DiagramObject(IdentifiedObject):
         for r in value:
             if self not in r._DiagramObjects:
                 r._DiagramObjects.append(self)
-        self._VisibilityLayers = value
+        self._VisibilityLayers = list(value)
 
     VisibilityLayers = property(getVisibilityLayers, setVisibilityLayers)
 
diff --git a/CIM15/IEC61970/Graphics/VisibilityLayer.py b/CIM15/IEC61970/Graphics/VisibilityLayer.py
index ae2f1bf..670a9e9 100644
--- a/CIM15/IEC61970/Graphics/VisibilityLayer.py
+++ b/CIM15/IEC61970/Graphics/VisibilityLayer.py
@@ -57,7 +57,7 @@ class VisibilityLayer(IdentifiedObject):
         for r in value:
             if self not in r._VisibilityLayers:
                 r._VisibilityLayers.append(self)
-        self._DiagramObjects = value
+        self._DiagramObjects = list(value)
 
     DiagramObjects = property(getDiagramObjects, setDiagramObjects)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py b/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
index 59aef2d..b203498 100644
--- a/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
+++ b/CIM15/IEC61970/Informative/InfAssets/AssetPropertyCurve.py
@@ -72,7 +72,7 @@ class AssetPropertyCurve(Curve):
         for r in value:
             if self not in r._AssetPropertyCurves:
                 r._AssetPropertyCurves.append(self)
-        self._Assets = value
+        self._Assets = list(value)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
index f8e2904..2b4907b 100644
--- a/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/DimensionsInfo.py
@@ -120,7 +120,7 @@ class DimensionsInfo(IdentifiedObject):
         for r in value:
             if self not in r._DimensionsInfos:
                 r._DimensionsInfos.append(self)
-        self._Specifications = value
+        self._Specifications = list(value)
 
     Specifications = property(getSpecifications, setSpecifications)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Medium.py b/CIM15/IEC61970/Informative/InfAssets/Medium.py
index c4523c5..495d906 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Medium.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Medium.py
@@ -80,7 +80,7 @@ class Medium(IdentifiedObject):
         for r in value:
             if self not in r._Mediums:
                 r._Mediums.append(self)
-        self._Assets = value
+        self._Assets = list(value)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py b/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
index cb56c2b..18f5df6 100644
--- a/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
+++ b/CIM15/IEC61970/Informative/InfAssets/MountingConnection.py
@@ -56,7 +56,7 @@ class MountingConnection(IdentifiedObject):
         for r in value:
             if self not in r._MountingConnections:
                 r._MountingConnections.append(self)
-        self._StructureInfos = value
+        self._StructureInfos = list(value)
 
     StructureInfos = property(getStructureInfos, setStructureInfos)
 
@@ -84,7 +84,7 @@ class MountingConnection(IdentifiedObject):
         for r in value:
             if self not in r._Connections:
                 r._Connections.append(self)
-        self._MountingPoints = value
+        self._MountingPoints = list(value)
 
     MountingPoints = property(getMountingPoints, setMountingPoints)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
index 4430a80..940adbe 100644
--- a/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
+++ b/CIM15/IEC61970/Informative/InfAssets/MountingPoint.py
@@ -68,7 +68,7 @@ class MountingPoint(IdentifiedObject):
         for r in value:
             if self not in r._MountingPoints:
                 r._MountingPoints.append(self)
-        self._Connections = value
+        self._Connections = list(value)
 
     Connections = property(getConnections, setConnections)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/PowerRating.py b/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
index a5c4c69..3eb549a 100644
--- a/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
+++ b/CIM15/IEC61970/Informative/InfAssets/PowerRating.py
@@ -64,7 +64,7 @@ class PowerRating(IdentifiedObject):
         for r in value:
             if self not in r._PowerRatings:
                 r._PowerRatings.append(self)
-        self._TransformerAssets = value
+        self._TransformerAssets = list(value)
 
     TransformerAssets = property(getTransformerAssets, setTransformerAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Procedure.py b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
index e82cfd6..4094b2d 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Procedure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Procedure.py
@@ -121,7 +121,7 @@ class Procedure(Document):
         for r in value:
             if self not in r._Procedures:
                 r._Procedures.append(self)
-        self._CompatibleUnits = value
+        self._CompatibleUnits = list(value)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
@@ -149,7 +149,7 @@ class Procedure(Document):
         for r in value:
             if self not in r._Procedures:
                 r._Procedures.append(self)
-        self._Limits = value
+        self._Limits = list(value)
 
     Limits = property(getLimits, setLimits)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py b/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
index 3c35a6a..38bd9e6 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ProcedureDataSet.py
@@ -69,7 +69,7 @@ class ProcedureDataSet(Document):
         for r in value:
             if self not in r._ProcedureDataSets:
                 r._ProcedureDataSets.append(self)
-        self._Properties = value
+        self._Properties = list(value)
 
     Properties = property(getProperties, setProperties)
 
@@ -97,7 +97,7 @@ class ProcedureDataSet(Document):
         for r in value:
             if self not in r._ProcedureDataSets:
                 r._ProcedureDataSets.append(self)
-        self._TransformerObservations = value
+        self._TransformerObservations = list(value)
 
     TransformerObservations = property(getTransformerObservations, setTransformerObservations)
 
@@ -141,7 +141,7 @@ class ProcedureDataSet(Document):
         for r in value:
             if self not in r._ProcedureDataSets:
                 r._ProcedureDataSets.append(self)
-        self._MeasurementValues = value
+        self._MeasurementValues = list(value)
 
     MeasurementValues = property(getMeasurementValues, setMeasurementValues)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py b/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
index 9eceba4..7f1c06f 100644
--- a/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
+++ b/CIM15/IEC61970/Informative/InfAssets/ReliabilityInfo.py
@@ -80,7 +80,7 @@ class ReliabilityInfo(IdentifiedObject):
         for r in value:
             if self not in r._ReliabilityInfos:
                 r._ReliabilityInfos.append(self)
-        self._Assets = value
+        self._Assets = list(value)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Specification.py b/CIM15/IEC61970/Informative/InfAssets/Specification.py
index 3ae9391..4fc460a 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Specification.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Specification.py
@@ -157,7 +157,7 @@ class Specification(Document):
         for r in value:
             if self not in r._Specifications:
                 r._Specifications.append(self)
-        self._DimensionsInfos = value
+        self._DimensionsInfos = list(value)
 
     DimensionsInfos = property(getDimensionsInfos, setDimensionsInfos)
 
@@ -206,7 +206,7 @@ class Specification(Document):
         for r in value:
             if self not in r._Specifications:
                 r._Specifications.append(self)
-        self._QualificationRequirements = value
+        self._QualificationRequirements = list(value)
 
     QualificationRequirements = property(getQualificationRequirements, setQualificationRequirements)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/Structure.py b/CIM15/IEC61970/Informative/InfAssets/Structure.py
index 9f082ca..d0f8e66 100644
--- a/CIM15/IEC61970/Informative/InfAssets/Structure.py
+++ b/CIM15/IEC61970/Informative/InfAssets/Structure.py
@@ -104,7 +104,7 @@ class Structure(AssetContainer):
         for r in value:
             if self not in r._StructureInfos:
                 r._StructureInfos.append(self)
-        self._MountingConnections = value
+        self._MountingConnections = list(value)
 
     MountingConnections = property(getMountingConnections, setMountingConnections)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
index c23da63..87371ce 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerAsset.py
@@ -68,7 +68,7 @@ class TransformerAsset(Asset):
         for r in value:
             if self not in r._TransformerAssets:
                 r._TransformerAssets.append(self)
-        self._PowerRatings = value
+        self._PowerRatings = list(value)
 
     PowerRatings = property(getPowerRatings, setPowerRatings)
 
diff --git a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
index 6e75d02..c7201bc 100644
--- a/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
+++ b/CIM15/IEC61970/Informative/InfAssets/TransformerObservation.py
@@ -143,7 +143,7 @@ class TransformerObservation(IdentifiedObject):
         for r in value:
             if self not in r._TransformerObservations:
                 r._TransformerObservations.append(self)
-        self._ProcedureDataSets = value
+        self._ProcedureDataSets = list(value)
 
     ProcedureDataSets = property(getProcedureDataSets, setProcedureDataSets)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py b/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
index 6a58131..a56d763 100644
--- a/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
+++ b/CIM15/IEC61970/Informative/InfCommon/BusinessRole.py
@@ -59,7 +59,7 @@ class BusinessRole(IdentifiedObject):
         for r in value:
             if self not in r._BusinessRoles:
                 r._BusinessRoles.append(self)
-        self._Organisations = value
+        self._Organisations = list(value)
 
     Organisations = property(getOrganisations, setOrganisations)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/Craft.py b/CIM15/IEC61970/Informative/InfCommon/Craft.py
index 9bf52ae..6816e8b 100644
--- a/CIM15/IEC61970/Informative/InfCommon/Craft.py
+++ b/CIM15/IEC61970/Informative/InfCommon/Craft.py
@@ -67,7 +67,7 @@ class Craft(IdentifiedObject):
         for r in value:
             if self not in r._Crafts:
                 r._Crafts.append(self)
-        self._Skills = value
+        self._Skills = list(value)
 
     Skills = property(getSkills, setSkills)
 
@@ -95,7 +95,7 @@ class Craft(IdentifiedObject):
         for r in value:
             if self not in r._Crafts:
                 r._Crafts.append(self)
-        self._ErpPersons = value
+        self._ErpPersons = list(value)
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
@@ -125,7 +125,7 @@ class Craft(IdentifiedObject):
         for r in value:
             if self not in r._Crafts:
                 r._Crafts.append(self)
-        self._Capabilities = value
+        self._Capabilities = list(value)
 
     Capabilities = property(getCapabilities, setCapabilities)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
index ed35230..f22491e 100644
--- a/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
+++ b/CIM15/IEC61970/Informative/InfCommon/ScheduleParameterInfo.py
@@ -88,7 +88,7 @@ class ScheduleParameterInfo(IdentifiedObject):
         for r in value:
             if self not in r._ScheduleParameterInfos:
                 r._ScheduleParameterInfos.append(self)
-        self._Documents = value
+        self._Documents = list(value)
 
     Documents = property(getDocuments, setDocuments)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py b/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
index a0c2daf..a1d8d38 100644
--- a/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
+++ b/CIM15/IEC61970/Informative/InfCommon/ScheduledEvent.py
@@ -144,7 +144,7 @@ class ScheduledEvent(IdentifiedObject):
         for r in value:
             if self not in r._ScheduledEvents:
                 r._ScheduledEvents.append(self)
-        self._Assets = value
+        self._Assets = list(value)
 
     Assets = property(getAssets, setAssets)
 
diff --git a/CIM15/IEC61970/Informative/InfCommon/Skill.py b/CIM15/IEC61970/Informative/InfCommon/Skill.py
index 2f557bf..d38e8da 100644
--- a/CIM15/IEC61970/Informative/InfCommon/Skill.py
+++ b/CIM15/IEC61970/Informative/InfCommon/Skill.py
@@ -71,7 +71,7 @@ class Skill(Document):
         for r in value:
             if self not in r._Skills:
                 r._Skills.append(self)
-        self._Crafts = value
+        self._Crafts = list(value)
 
     Crafts = property(getCrafts, setCrafts)
 
@@ -115,7 +115,7 @@ class Skill(Document):
         for r in value:
             if self not in r._Skills:
                 r._Skills.append(self)
-        self._QualificationRequirements = value
+        self._QualificationRequirements = list(value)
 
     QualificationRequirements = property(getQualificationRequirements, setQualificationRequirements)
 
diff --git a/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py b/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
index db16d41..5069dcc 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/CustomerBillingInfo.py
@@ -88,7 +88,7 @@ class CustomerBillingInfo(Document):
         for r in value:
             if self not in r._CustomerBillingInfos:
                 r._CustomerBillingInfos.append(self)
-        self._ErpInvoiceLineItems = value
+        self._ErpInvoiceLineItems = list(value)
 
     ErpInvoiceLineItems = property(getErpInvoiceLineItems, setErpInvoiceLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
index 92fddb6..41eb85f 100644
--- a/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
+++ b/CIM15/IEC61970/Informative/InfCustomers/WorkBillingInfo.py
@@ -124,7 +124,7 @@ class WorkBillingInfo(Document):
         for r in value:
             if self not in r._WorkBillingInfos:
                 r._WorkBillingInfos.append(self)
-        self._ErpLineItems = value
+        self._ErpLineItems = list(value)
 
     ErpLineItems = property(getErpLineItems, setErpLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
index 72c9ef9..a03938e 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpInvoiceLineItem.py
@@ -131,7 +131,7 @@ class ErpInvoiceLineItem(Document):
         for r in value:
             if self not in r._ErpInvoiceLineItems:
                 r._ErpInvoiceLineItems.append(self)
-        self._ErpPayments = value
+        self._ErpPayments = list(value)
 
     ErpPayments = property(getErpPayments, setErpPayments)
 
@@ -175,7 +175,7 @@ class ErpInvoiceLineItem(Document):
         for r in value:
             if self not in r._ErpLineItems:
                 r._ErpLineItems.append(self)
-        self._WorkBillingInfos = value
+        self._WorkBillingInfos = list(value)
 
     WorkBillingInfos = property(getWorkBillingInfos, setWorkBillingInfos)
 
@@ -218,7 +218,7 @@ class ErpInvoiceLineItem(Document):
         for r in value:
             if self not in r._ErpInvoiceLineItems:
                 r._ErpInvoiceLineItems.append(self)
-        self._UserAttributes = value
+        self._UserAttributes = list(value)
 
     UserAttributes = property(getUserAttributes, setUserAttributes)
 
@@ -316,7 +316,7 @@ class ErpInvoiceLineItem(Document):
         for r in value:
             if self not in r._ErpInvoiceLineItems:
                 r._ErpInvoiceLineItems.append(self)
-        self._CustomerBillingInfos = value
+        self._CustomerBillingInfos = list(value)
 
     CustomerBillingInfos = property(getCustomerBillingInfos, setCustomerBillingInfos)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
index 83780c8..c320788 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpJournalEntry.py
@@ -97,7 +97,7 @@ class ErpJournalEntry(IdentifiedObject):
         for r in value:
             if self not in r._ErpJournalEntries:
                 r._ErpJournalEntries.append(self)
-        self._ErpPayableLineItems = value
+        self._ErpPayableLineItems = list(value)
 
     ErpPayableLineItems = property(getErpPayableLineItems, setErpPayableLineItems)
 
@@ -141,7 +141,7 @@ class ErpJournalEntry(IdentifiedObject):
         for r in value:
             if self not in r._ErpJournalEntries:
                 r._ErpJournalEntries.append(self)
-        self._ErpRecLineItems = value
+        self._ErpRecLineItems = list(value)
 
     ErpRecLineItems = property(getErpRecLineItems, setErpRecLineItems)
 
@@ -184,7 +184,7 @@ class ErpJournalEntry(IdentifiedObject):
         for r in value:
             if self not in r._ErpJournalEntries:
                 r._ErpJournalEntries.append(self)
-        self._CostTypes = value
+        self._CostTypes = list(value)
 
     CostTypes = property(getCostTypes, setCostTypes)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
index 7be2de9..6158aad 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
@@ -120,7 +120,7 @@ class ErpLedgerEntry(IdentifiedObject):
         for r in value:
             if self not in r._ErpLedgerEntries:
                 r._ErpLedgerEntries.append(self)
-        self._UserAttributes = value
+        self._UserAttributes = list(value)
 
     UserAttributes = property(getUserAttributes, setUserAttributes)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
index d1c9c8b..63c0c16 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpOrganisation.py
@@ -168,7 +168,7 @@ class ErpOrganisation(Organisation):
         for r in value:
             if self not in r._Organisations:
                 r._Organisations.append(self)
-        self._Crews = value
+        self._Crews = list(value)
 
     Crews = property(getCrews, setCrews)
 
@@ -236,7 +236,7 @@ class ErpOrganisation(Organisation):
         for r in value:
             if self not in r._Organisations:
                 r._Organisations.append(self)
-        self._ActivityRecords = value
+        self._ActivityRecords = list(value)
 
     ActivityRecords = property(getActivityRecords, setActivityRecords)
 
@@ -284,7 +284,7 @@ class ErpOrganisation(Organisation):
         for r in value:
             if self not in r._ErpOrganisations:
                 r._ErpOrganisations.append(self)
-        self._Locations = value
+        self._Locations = list(value)
 
     Locations = property(getLocations, setLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
index 3f7cc7d..4a791d4 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayable.py
@@ -56,7 +56,7 @@ class ErpPayable(Document):
         for r in value:
             if self not in r._ErpPayables:
                 r._ErpPayables.append(self)
-        self._ContractorItems = value
+        self._ContractorItems = list(value)
 
     ContractorItems = property(getContractorItems, setContractorItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
index 9ed6f43..75c09ab 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayableLineItem.py
@@ -67,7 +67,7 @@ class ErpPayableLineItem(IdentifiedObject):
         for r in value:
             if self not in r._ErpPayableLineItems:
                 r._ErpPayableLineItems.append(self)
-        self._ErpPayments = value
+        self._ErpPayments = list(value)
 
     ErpPayments = property(getErpPayments, setErpPayments)
 
@@ -95,7 +95,7 @@ class ErpPayableLineItem(IdentifiedObject):
         for r in value:
             if self not in r._ErpPayableLineItems:
                 r._ErpPayableLineItems.append(self)
-        self._ErpJournalEntries = value
+        self._ErpJournalEntries = list(value)
 
     ErpJournalEntries = property(getErpJournalEntries, setErpJournalEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
index 608ec78..e0e6323 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPayment.py
@@ -64,7 +64,7 @@ class ErpPayment(Document):
         for r in value:
             if self not in r._ErpPayments:
                 r._ErpPayments.append(self)
-        self._ErpRecLineItems = value
+        self._ErpRecLineItems = list(value)
 
     ErpRecLineItems = property(getErpRecLineItems, setErpRecLineItems)
 
@@ -92,7 +92,7 @@ class ErpPayment(Document):
         for r in value:
             if self not in r._ErpPayments:
                 r._ErpPayments.append(self)
-        self._ErpPayableLineItems = value
+        self._ErpPayableLineItems = list(value)
 
     ErpPayableLineItems = property(getErpPayableLineItems, setErpPayableLineItems)
 
@@ -120,7 +120,7 @@ class ErpPayment(Document):
         for r in value:
             if self not in r._ErpPayments:
                 r._ErpPayments.append(self)
-        self._ErpInvoiceLineItems = value
+        self._ErpInvoiceLineItems = list(value)
 
     ErpInvoiceLineItems = property(getErpInvoiceLineItems, setErpInvoiceLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
index 35134d5..367adf0 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpPerson.py
@@ -196,7 +196,7 @@ class ErpPerson(IdentifiedObject):
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
-        self._Appointments = value
+        self._Appointments = list(value)
 
     Appointments = property(getAppointments, setAppointments)
 
@@ -225,7 +225,7 @@ class ErpPerson(IdentifiedObject):
         for r in value:
             if self not in r._CrewMembers:
                 r._CrewMembers.append(self)
-        self._Crews = value
+        self._Crews = list(value)
 
     Crews = property(getCrews, setCrews)
 
@@ -253,7 +253,7 @@ class ErpPerson(IdentifiedObject):
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
-        self._LaborItems = value
+        self._LaborItems = list(value)
 
     LaborItems = property(getLaborItems, setLaborItems)
 
@@ -301,7 +301,7 @@ class ErpPerson(IdentifiedObject):
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
-        self._ActivityRecords = value
+        self._ActivityRecords = list(value)
 
     ActivityRecords = property(getActivityRecords, setActivityRecords)
 
@@ -433,7 +433,7 @@ class ErpPerson(IdentifiedObject):
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
-        self._Crafts = value
+        self._Crafts = list(value)
 
     Crafts = property(getCrafts, setCrafts)
 
@@ -477,7 +477,7 @@ class ErpPerson(IdentifiedObject):
         for r in value:
             if self not in r._ErpPersons:
                 r._ErpPersons.append(self)
-        self._CallBacks = value
+        self._CallBacks = list(value)
 
     CallBacks = property(getCallBacks, setCallBacks)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
index 75f4129..2f0fbae 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecDelvLineItem.py
@@ -71,7 +71,7 @@ class ErpRecDelvLineItem(IdentifiedObject):
         for r in value:
             if self not in r._ErpRecDeliveryItems:
                 r._ErpRecDeliveryItems.append(self)
-        self._Assets = value
+        self._Assets = list(value)
 
     Assets = property(getAssets, setAssets)
 
@@ -132,7 +132,7 @@ class ErpRecDelvLineItem(IdentifiedObject):
         for r in value:
             if self not in r._ErpRecDelvLineItems:
                 r._ErpRecDelvLineItems.append(self)
-        self._MaterialItems = value
+        self._MaterialItems = list(value)
 
     MaterialItems = property(getMaterialItems, setMaterialItems)
 
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
index 48af996..8d6477e 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpRecLineItem.py
@@ -100,7 +100,7 @@ class ErpRecLineItem(IdentifiedObject):
         for r in value:
             if self not in r._ErpRecLineItems:
                 r._ErpRecLineItems.append(self)
-        self._ErpPayments = value
+        self._ErpPayments = list(value)
 
     ErpPayments = property(getErpPayments, setErpPayments)
 
@@ -128,7 +128,7 @@ class ErpRecLineItem(IdentifiedObject):
         for r in value:
             if self not in r._ErpRecLineItems:
                 r._ErpRecLineItems.append(self)
-        self._ErpJournalEntries = value
+        self._ErpJournalEntries = list(value)
 
     ErpJournalEntries = property(getErpJournalEntries, setErpJournalEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
index 643bca2..5cb10b6 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/Diagram.py
@@ -125,7 +125,7 @@ class Diagram(Document):
         for r in value:
             if self not in r._Diagrams:
                 r._Diagrams.append(self)
-        self._GmlDiagramObjects = value
+        self._GmlDiagramObjects = list(value)
 
     GmlDiagramObjects = property(getGmlDiagramObjects, setGmlDiagramObjects)
 
@@ -153,7 +153,7 @@ class Diagram(Document):
         for r in value:
             if self not in r._Diagrams:
                 r._Diagrams.append(self)
-        self._DesignLocations = value
+        self._DesignLocations = list(value)
 
     DesignLocations = property(getDesignLocations, setDesignLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
index 7d9a99e..9b47fee 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlDiagramObject.py
@@ -84,7 +84,7 @@ class GmlDiagramObject(IdentifiedObject):
         for r in value:
             if self not in r._GmlDiagramObjects:
                 r._GmlDiagramObjects.append(self)
-        self._GmlSelectors = value
+        self._GmlSelectors = list(value)
 
     GmlSelectors = property(getGmlSelectors, setGmlSelectors)
 
@@ -112,7 +112,7 @@ class GmlDiagramObject(IdentifiedObject):
         for r in value:
             if self not in r._GmlDiagramObjects:
                 r._GmlDiagramObjects.append(self)
-        self._Diagrams = value
+        self._Diagrams = list(value)
 
     Diagrams = property(getDiagrams, setDiagrams)
 
@@ -140,7 +140,7 @@ class GmlDiagramObject(IdentifiedObject):
         for r in value:
             if self not in r._GmlDiagramObjects:
                 r._GmlDiagramObjects.append(self)
-        self._CoordinateSystems = value
+        self._CoordinateSystems = list(value)
 
     CoordinateSystems = property(getCoordinateSystems, setCoordinateSystems)
 
@@ -228,7 +228,7 @@ class GmlDiagramObject(IdentifiedObject):
         for r in value:
             if self not in r._GmlDiagramObjects:
                 r._GmlDiagramObjects.append(self)
-        self._GmlObservatins = value
+        self._GmlObservatins = list(value)
 
     GmlObservatins = property(getGmlObservatins, setGmlObservatins)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
index 9bf73a6..71df914 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureStyle.py
@@ -116,7 +116,7 @@ class GmlFeatureStyle(IdentifiedObject):
         for r in value:
             if self not in r._GmlFeatureStyles:
                 r._GmlFeatureStyles.append(self)
-        self._GmlSymbols = value
+        self._GmlSymbols = list(value)
 
     GmlSymbols = property(getGmlSymbols, setGmlSymbols)
 
@@ -184,7 +184,7 @@ class GmlFeatureStyle(IdentifiedObject):
         for r in value:
             if self not in r._GmlFeatureStyles:
                 r._GmlFeatureStyles.append(self)
-        self._GmlFeatureTypes = value
+        self._GmlFeatureTypes = list(value)
 
     GmlFeatureTypes = property(getGmlFeatureTypes, setGmlFeatureTypes)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
index e8a12f1..67d3e25 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFeatureType.py
@@ -52,7 +52,7 @@ class GmlFeatureType(IdentifiedObject):
         for r in value:
             if self not in r._GmlFeatureTypes:
                 r._GmlFeatureTypes.append(self)
-        self._GmlFeatureStyles = value
+        self._GmlFeatureStyles = list(value)
 
     GmlFeatureStyles = property(getGmlFeatureStyles, setGmlFeatureStyles)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
index a817809..f476b3e 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFill.py
@@ -88,7 +88,7 @@ class GmlFill(IdentifiedObject):
         for r in value:
             if self not in r._GmlFIlls:
                 r._GmlFIlls.append(self)
-        self._GmlMarks = value
+        self._GmlMarks = list(value)
 
     GmlMarks = property(getGmlMarks, setGmlMarks)
 
@@ -136,7 +136,7 @@ class GmlFill(IdentifiedObject):
         for r in value:
             if self not in r._GmlFills:
                 r._GmlFills.append(self)
-        self._GmlSvgParameters = value
+        self._GmlSvgParameters = list(value)
 
     GmlSvgParameters = property(getGmlSvgParameters, setGmlSvgParameters)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
index 0f78229..d5ffcc3 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlFont.py
@@ -100,7 +100,7 @@ class GmlFont(IdentifiedObject):
         for r in value:
             if self not in r._GmlFonts:
                 r._GmlFonts.append(self)
-        self._GmlSvgParameters = value
+        self._GmlSvgParameters = list(value)
 
     GmlSvgParameters = property(getGmlSvgParameters, setGmlSvgParameters)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
index 4b76e78..2a9ec36 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlGraphic.py
@@ -84,7 +84,7 @@ class GmlGraphic(IdentifiedObject):
         for r in value:
             if self not in r._GmlGraphics:
                 r._GmlGraphics.append(self)
-        self._GmlMarks = value
+        self._GmlMarks = list(value)
 
     GmlMarks = property(getGmlMarks, setGmlMarks)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
index e0756ce..7efb858 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlMark.py
@@ -64,7 +64,7 @@ class GmlMark(IdentifiedObject):
         for r in value:
             if self not in r._GmlMarks:
                 r._GmlMarks.append(self)
-        self._GmlGraphics = value
+        self._GmlGraphics = list(value)
 
     GmlGraphics = property(getGmlGraphics, setGmlGraphics)
 
@@ -92,7 +92,7 @@ class GmlMark(IdentifiedObject):
         for r in value:
             if self not in r._GmlMarks:
                 r._GmlMarks.append(self)
-        self._GmlStrokes = value
+        self._GmlStrokes = list(value)
 
     GmlStrokes = property(getGmlStrokes, setGmlStrokes)
 
@@ -120,7 +120,7 @@ class GmlMark(IdentifiedObject):
         for r in value:
             if self not in r._GmlMarks:
                 r._GmlMarks.append(self)
-        self._GmlFIlls = value
+        self._GmlFIlls = list(value)
 
     GmlFIlls = property(getGmlFIlls, setGmlFIlls)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
index 2d8f31b..badc3db 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlObservation.py
@@ -76,7 +76,7 @@ class GmlObservation(Element):
         for r in value:
             if self not in r._GmlObservatins:
                 r._GmlObservatins.append(self)
-        self._GmlDiagramObjects = value
+        self._GmlDiagramObjects = list(value)
 
     GmlDiagramObjects = property(getGmlDiagramObjects, setGmlDiagramObjects)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
index 6b2863a..9c7d388 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSelector.py
@@ -76,7 +76,7 @@ class GmlSelector(IdentifiedObject):
         for r in value:
             if self not in r._GmlSelectors:
                 r._GmlSelectors.append(self)
-        self._GmlDiagramObjects = value
+        self._GmlDiagramObjects = list(value)
 
     GmlDiagramObjects = property(getGmlDiagramObjects, setGmlDiagramObjects)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
index 018b976..b7041bf 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlStroke.py
@@ -132,7 +132,7 @@ class GmlStroke(IdentifiedObject):
         for r in value:
             if self not in r._GmlStrokes:
                 r._GmlStrokes.append(self)
-        self._GmlMarks = value
+        self._GmlMarks = list(value)
 
     GmlMarks = property(getGmlMarks, setGmlMarks)
 
@@ -160,7 +160,7 @@ class GmlStroke(IdentifiedObject):
         for r in value:
             if self not in r._GmlStokes:
                 r._GmlStokes.append(self)
-        self._GmlSvgParameters = value
+        self._GmlSvgParameters = list(value)
 
     GmlSvgParameters = property(getGmlSvgParameters, setGmlSvgParameters)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
index dfa7aa9..90f5010 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSvgParameter.py
@@ -68,7 +68,7 @@ class GmlSvgParameter(IdentifiedObject):
         for r in value:
             if self not in r._GmlSvgParameters:
                 r._GmlSvgParameters.append(self)
-        self._GmlStokes = value
+        self._GmlStokes = list(value)
 
     GmlStokes = property(getGmlStokes, setGmlStokes)
 
@@ -96,7 +96,7 @@ class GmlSvgParameter(IdentifiedObject):
         for r in value:
             if self not in r._GmlSvgParameters:
                 r._GmlSvgParameters.append(self)
-        self._GmlFonts = value
+        self._GmlFonts = list(value)
 
     GmlFonts = property(getGmlFonts, setGmlFonts)
 
@@ -124,7 +124,7 @@ class GmlSvgParameter(IdentifiedObject):
         for r in value:
             if self not in r._GmlSvgParameters:
                 r._GmlSvgParameters.append(self)
-        self._GmlFills = value
+        self._GmlFills = list(value)
 
     GmlFills = property(getGmlFills, setGmlFills)
 
diff --git a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
index 83cb4a3..5928795 100644
--- a/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
+++ b/CIM15/IEC61970/Informative/InfGMLSupport/GmlSymbol.py
@@ -68,7 +68,7 @@ class GmlSymbol(IdentifiedObject):
         for r in value:
             if self not in r._GmlSymbols:
                 r._GmlSymbols.append(self)
-        self._GmlFeatureStyles = value
+        self._GmlFeatureStyles = list(value)
 
     GmlFeatureStyles = property(getGmlFeatureStyles, setGmlFeatureStyles)
 
diff --git a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
index 69f9c36..2bf541f 100644
--- a/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
+++ b/CIM15/IEC61970/Informative/InfLoadControl/LoadMgmtFunction.py
@@ -80,7 +80,7 @@ class LoadMgmtFunction(EndDeviceFunction):
         for r in value:
             if self not in r._LoadMgmtFunctions:
                 r._LoadMgmtFunctions.append(self)
-        self._Switches = value
+        self._Switches = list(value)
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/Hazard.py b/CIM15/IEC61970/Informative/InfLocations/Hazard.py
index 72c3436..f56cf79 100644
--- a/CIM15/IEC61970/Informative/InfLocations/Hazard.py
+++ b/CIM15/IEC61970/Informative/InfLocations/Hazard.py
@@ -60,7 +60,7 @@ class Hazard(IdentifiedObject):
         for r in value:
             if self not in r._Hazards:
                 r._Hazards.append(self)
-        self._Locations = value
+        self._Locations = list(value)
 
     Locations = property(getLocations, setLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
index 40b3416..552a798 100644
--- a/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
+++ b/CIM15/IEC61970/Informative/InfLocations/LandProperty.py
@@ -154,7 +154,7 @@ class LandProperty(IdentifiedObject):
         for r in value:
             if self not in r._LandProperty:
                 r._LandProperty.append(self)
-        self._ErpOrganisationRoles = value
+        self._ErpOrganisationRoles = list(value)
 
     ErpOrganisationRoles = property(getErpOrganisationRoles, setErpOrganisationRoles)
 
@@ -182,7 +182,7 @@ class LandProperty(IdentifiedObject):
         for r in value:
             if self not in r._LandProperties:
                 r._LandProperties.append(self)
-        self._AssetContainers = value
+        self._AssetContainers = list(value)
 
     AssetContainers = property(getAssetContainers, setAssetContainers)
 
@@ -211,7 +211,7 @@ class LandProperty(IdentifiedObject):
         for r in value:
             if self not in r._LandProperties:
                 r._LandProperties.append(self)
-        self._Locations = value
+        self._Locations = list(value)
 
     Locations = property(getLocations, setLocations)
 
@@ -240,7 +240,7 @@ class LandProperty(IdentifiedObject):
         for r in value:
             if self not in r._LandProperties:
                 r._LandProperties.append(self)
-        self._RightOfWays = value
+        self._RightOfWays = list(value)
 
     RightOfWays = property(getRightOfWays, setRightOfWays)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py b/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
index 383662f..e99b5ab 100644
--- a/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
+++ b/CIM15/IEC61970/Informative/InfLocations/OrgPropertyRole.py
@@ -56,7 +56,7 @@ class OrgPropertyRole(Role):
         for r in value:
             if self not in r._ErpOrganisationRoles:
                 r._ErpOrganisationRoles.append(self)
-        self._LandProperty = value
+        self._LandProperty = list(value)
 
     LandProperty = property(getLandProperty, setLandProperty)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/RedLine.py b/CIM15/IEC61970/Informative/InfLocations/RedLine.py
index 348a354..214654c 100644
--- a/CIM15/IEC61970/Informative/InfLocations/RedLine.py
+++ b/CIM15/IEC61970/Informative/InfLocations/RedLine.py
@@ -55,7 +55,7 @@ class RedLine(IdentifiedObject):
         for r in value:
             if self not in r._RedLines:
                 r._RedLines.append(self)
-        self._Locations = value
+        self._Locations = list(value)
 
     Locations = property(getLocations, setLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py b/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
index 31c1fb3..adc0b56 100644
--- a/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
+++ b/CIM15/IEC61970/Informative/InfLocations/RightOfWay.py
@@ -57,7 +57,7 @@ class RightOfWay(Agreement):
         for r in value:
             if self not in r._RightOfWays:
                 r._RightOfWays.append(self)
-        self._LandProperties = value
+        self._LandProperties = list(value)
 
     LandProperties = property(getLandProperties, setLandProperties)
 
diff --git a/CIM15/IEC61970/Informative/InfLocations/Route.py b/CIM15/IEC61970/Informative/InfLocations/Route.py
index 9ec56bb..d724ed8 100644
--- a/CIM15/IEC61970/Informative/InfLocations/Route.py
+++ b/CIM15/IEC61970/Informative/InfLocations/Route.py
@@ -85,7 +85,7 @@ class Route(IdentifiedObject):
         for r in value:
             if self not in r._Routes:
                 r._Routes.append(self)
-        self._Locations = value
+        self._Locations = list(value)
 
     Locations = property(getLocations, setLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/CallBack.py b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
index 37d8460..7c02462 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CallBack.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CallBack.py
@@ -103,7 +103,7 @@ class CallBack(IdentifiedObject):
         for r in value:
             if self not in r._CallBacks:
                 r._CallBacks.append(self)
-        self._ErpPersons = value
+        self._ErpPersons = list(value)
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
@@ -131,7 +131,7 @@ class CallBack(IdentifiedObject):
         for r in value:
             if self not in r._CallBacks:
                 r._CallBacks.append(self)
-        self._TroubleTickets = value
+        self._TroubleTickets = list(value)
 
     TroubleTickets = property(getTroubleTickets, setTroubleTickets)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
index eaa6e07..7c5187d 100644
--- a/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/ChangeSet.py
@@ -63,7 +63,7 @@ class ChangeSet(IdentifiedObject):
         for r in value:
             if self not in r._ChangeSets:
                 r._ChangeSets.append(self)
-        self._NetworkDataSets = value
+        self._NetworkDataSets = list(value)
 
     NetworkDataSets = property(getNetworkDataSets, setNetworkDataSets)
 
@@ -113,7 +113,7 @@ class ChangeSet(IdentifiedObject):
         for r in value:
             if self not in r._ChangeSets:
                 r._ChangeSets.append(self)
-        self._Documents = value
+        self._Documents = list(value)
 
     Documents = property(getDocuments, setDocuments)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/Circuit.py b/CIM15/IEC61970/Informative/InfOperations/Circuit.py
index 91b4ac7..3e29640 100644
--- a/CIM15/IEC61970/Informative/InfOperations/Circuit.py
+++ b/CIM15/IEC61970/Informative/InfOperations/Circuit.py
@@ -52,7 +52,7 @@ class Circuit(EquipmentContainer):
         for r in value:
             if self not in r._Circuits:
                 r._Circuits.append(self)
-        self._CircuitSections = value
+        self._CircuitSections = list(value)
 
     CircuitSections = property(getCircuitSections, setCircuitSections)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
index 2e815e1..9fff249 100644
--- a/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
+++ b/CIM15/IEC61970/Informative/InfOperations/CircuitSection.py
@@ -80,7 +80,7 @@ class CircuitSection(IdentifiedObject):
         for r in value:
             if self not in r._CircuitSections:
                 r._CircuitSections.append(self)
-        self._Circuits = value
+        self._Circuits = list(value)
 
     Circuits = property(getCircuits, setCircuits)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py b/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
index eec9445..5f34ce9 100644
--- a/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
+++ b/CIM15/IEC61970/Informative/InfOperations/IncidentCode.py
@@ -56,7 +56,7 @@ class IncidentCode(IdentifiedObject):
         for r in value:
             if self not in r._IncidentCodes:
                 r._IncidentCodes.append(self)
-        self._IncidentRecords = value
+        self._IncidentRecords = list(value)
 
     IncidentRecords = property(getIncidentRecords, setIncidentRecords)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
index 1f0b925..1a9dc4f 100644
--- a/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/IncidentRecord.py
@@ -82,7 +82,7 @@ class IncidentRecord(Document):
         for r in value:
             if self not in r._IncidentRecords:
                 r._IncidentRecords.append(self)
-        self._IncidentCodes = value
+        self._IncidentCodes = list(value)
 
     IncidentCodes = property(getIncidentCodes, setIncidentCodes)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
index f473638..1c32df5 100644
--- a/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
+++ b/CIM15/IEC61970/Informative/InfOperations/NetworkDataSet.py
@@ -73,7 +73,7 @@ class NetworkDataSet(IdentifiedObject):
         for r in value:
             if self not in r._NetworkDataSets:
                 r._NetworkDataSets.append(self)
-        self._Documents = value
+        self._Documents = list(value)
 
     Documents = property(getDocuments, setDocuments)
 
@@ -121,7 +121,7 @@ class NetworkDataSet(IdentifiedObject):
         for r in value:
             if self not in r._NetworkDataSets:
                 r._NetworkDataSets.append(self)
-        self._ChangeSets = value
+        self._ChangeSets = list(value)
 
     ChangeSets = property(getChangeSets, setChangeSets)
 
@@ -149,7 +149,7 @@ class NetworkDataSet(IdentifiedObject):
         for r in value:
             if self not in r._NetworkDataSets:
                 r._NetworkDataSets.append(self)
-        self._PowerSystemResources = value
+        self._PowerSystemResources = list(value)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageCode.py b/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
index e9907fc..eaff808 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageCode.py
@@ -60,7 +60,7 @@ class OutageCode(IdentifiedObject):
         for r in value:
             if self not in r._OutageCodes:
                 r._OutageCodes.append(self)
-        self._OutageRecords = value
+        self._OutageRecords = list(value)
 
     OutageRecords = property(getOutageRecords, setOutageRecords)
 
@@ -88,7 +88,7 @@ class OutageCode(IdentifiedObject):
         for r in value:
             if self not in r._OutageCodes:
                 r._OutageCodes.append(self)
-        self._OutageSteps = value
+        self._OutageSteps = list(value)
 
     OutageSteps = property(getOutageSteps, setOutageSteps)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py b/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
index d85fdb5..27a4a2f 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageNotification.py
@@ -64,7 +64,7 @@ class OutageNotification(Document):
         for r in value:
             if self not in r._OutageNotifications:
                 r._OutageNotifications.append(self)
-        self._CustomerDatas = value
+        self._CustomerDatas = list(value)
 
     CustomerDatas = property(getCustomerDatas, setCustomerDatas)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
index c159e7e..a22b165 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageRecord.py
@@ -81,7 +81,7 @@ class OutageRecord(Document):
         for r in value:
             if self not in r._OutageRecords:
                 r._OutageRecords.append(self)
-        self._OutageCodes = value
+        self._OutageCodes = list(value)
 
     OutageCodes = property(getOutageCodes, setOutageCodes)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
index a356531..af6e4f7 100644
--- a/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
+++ b/CIM15/IEC61970/Informative/InfOperations/OutageStep.py
@@ -118,7 +118,7 @@ class OutageStep(IdentifiedObject):
         for r in value:
             if self not in r._OutageSteps:
                 r._OutageSteps.append(self)
-        self._Crews = value
+        self._Crews = list(value)
 
     Crews = property(getCrews, setCrews)
 
@@ -188,7 +188,7 @@ class OutageStep(IdentifiedObject):
         for r in value:
             if self not in r._OutageSteps:
                 r._OutageSteps.append(self)
-        self._OutageCodes = value
+        self._OutageCodes = list(value)
 
     OutageCodes = property(getOutageCodes, setOutageCodes)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
index e98012f..de88439 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SwitchingSchedule.py
@@ -104,7 +104,7 @@ class SwitchingSchedule(Document):
         for r in value:
             if self not in r._SwitchingSchedules:
                 r._SwitchingSchedules.append(self)
-        self._Crews = value
+        self._Crews = list(value)
 
     Crews = property(getCrews, setCrews)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py b/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
index 0fbe5d9..39c6e38 100644
--- a/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
+++ b/CIM15/IEC61970/Informative/InfOperations/SwitchingStep.py
@@ -118,7 +118,7 @@ class SwitchingStep(IdentifiedObject):
         for r in value:
             if self not in r._ScheduleSteps:
                 r._ScheduleSteps.append(self)
-        self._PowerSystemResources = value
+        self._PowerSystemResources = list(value)
 
     PowerSystemResources = property(getPowerSystemResources, setPowerSystemResources)
 
diff --git a/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py b/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
index c3f9c23..cc97a62 100644
--- a/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
+++ b/CIM15/IEC61970/Informative/InfOperations/TroubleTicket.py
@@ -99,7 +99,7 @@ class TroubleTicket(Document):
         for r in value:
             if self not in r._TroubleTickets:
                 r._TroubleTickets.append(self)
-        self._CallBacks = value
+        self._CallBacks = list(value)
 
     CallBacks = property(getCallBacks, setCallBacks)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Appointment.py b/CIM15/IEC61970/Informative/InfWork/Appointment.py
index 727f1ca..b72f9f2 100644
--- a/CIM15/IEC61970/Informative/InfWork/Appointment.py
+++ b/CIM15/IEC61970/Informative/InfWork/Appointment.py
@@ -73,7 +73,7 @@ class Appointment(ScheduledEvent):
         for r in value:
             if self not in r._Appointments:
                 r._Appointments.append(self)
-        self._ErpPersons = value
+        self._ErpPersons = list(value)
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Assignment.py b/CIM15/IEC61970/Informative/InfWork/Assignment.py
index 4e3f956..217765b 100644
--- a/CIM15/IEC61970/Informative/InfWork/Assignment.py
+++ b/CIM15/IEC61970/Informative/InfWork/Assignment.py
@@ -56,7 +56,7 @@ class Assignment(Document):
         for r in value:
             if self not in r._Assignments:
                 r._Assignments.append(self)
-        self._Crews = value
+        self._Crews = list(value)
 
     Crews = property(getCrews, setCrews)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUAsset.py b/CIM15/IEC61970/Informative/InfWork/CUAsset.py
index 3176c6b..087cffa 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUAsset.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUAsset.py
@@ -67,7 +67,7 @@ class CUAsset(IdentifiedObject):
         for r in value:
             if self not in r._CUAssets:
                 r._CUAssets.append(self)
-        self._CompatibleUnits = value
+        self._CompatibleUnits = list(value)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py b/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
index 4d96c32..605b7a8 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUContractorItem.py
@@ -63,7 +63,7 @@ class CUContractorItem(IdentifiedObject):
         for r in value:
             if self not in r._CUContractorItems:
                 r._CUContractorItems.append(self)
-        self._CompatibleUnits = value
+        self._CompatibleUnits = list(value)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUGroup.py b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
index 46ee901..5850aa8 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUGroup.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUGroup.py
@@ -87,7 +87,7 @@ class CUGroup(IdentifiedObject):
         for r in value:
             if self not in r._ChildCUGroups:
                 r._ChildCUGroups.append(self)
-        self._ParentCUGroups = value
+        self._ParentCUGroups = list(value)
 
     ParentCUGroups = property(getParentCUGroups, setParentCUGroups)
 
@@ -115,7 +115,7 @@ class CUGroup(IdentifiedObject):
         for r in value:
             if self not in r._ParentCUGroups:
                 r._ParentCUGroups.append(self)
-        self._ChildCUGroups = value
+        self._ChildCUGroups = list(value)
 
     ChildCUGroups = property(getChildCUGroups, setChildCUGroups)
 
@@ -145,7 +145,7 @@ class CUGroup(IdentifiedObject):
         for r in value:
             if self not in r._CUGroups:
                 r._CUGroups.append(self)
-        self._DesignLocationCUs = value
+        self._DesignLocationCUs = list(value)
 
     DesignLocationCUs = property(getDesignLocationCUs, setDesignLocationCUs)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CULaborItem.py b/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
index 50e1e30..d2aca1c 100644
--- a/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CULaborItem.py
@@ -75,7 +75,7 @@ class CULaborItem(IdentifiedObject):
         for r in value:
             if self not in r._CULaborItems:
                 r._CULaborItems.append(self)
-        self._CompatibleUnits = value
+        self._CompatibleUnits = list(value)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
@@ -121,7 +121,7 @@ class CULaborItem(IdentifiedObject):
         for r in value:
             if self not in r._CULaborItems:
                 r._CULaborItems.append(self)
-        self._QualificationRequirements = value
+        self._QualificationRequirements = list(value)
 
     QualificationRequirements = property(getQualificationRequirements, setQualificationRequirements)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py b/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
index 4dd72b5..4b7654d 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUMaterialItem.py
@@ -73,7 +73,7 @@ class CUMaterialItem(IdentifiedObject):
         for r in value:
             if self not in r._CUMaterialItems:
                 r._CUMaterialItems.append(self)
-        self._PropertyUnits = value
+        self._PropertyUnits = list(value)
 
     PropertyUnits = property(getPropertyUnits, setPropertyUnits)
 
@@ -101,7 +101,7 @@ class CUMaterialItem(IdentifiedObject):
         for r in value:
             if self not in r._CUMaterialItems:
                 r._CUMaterialItems.append(self)
-        self._CompatibleUnits = value
+        self._CompatibleUnits = list(value)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py b/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
index 926f1ce..c437d82 100644
--- a/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/CUWorkEquipmentItem.py
@@ -84,7 +84,7 @@ class CUWorkEquipmentItem(IdentifiedObject):
         for r in value:
             if self not in r._CUWorkEquipmentItems:
                 r._CUWorkEquipmentItems.append(self)
-        self._CompatibleUnits = value
+        self._CompatibleUnits = list(value)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Capability.py b/CIM15/IEC61970/Informative/InfWork/Capability.py
index 07e54af..3980170 100644
--- a/CIM15/IEC61970/Informative/InfWork/Capability.py
+++ b/CIM15/IEC61970/Informative/InfWork/Capability.py
@@ -90,7 +90,7 @@ class Capability(IdentifiedObject):
         for r in value:
             if self not in r._Capabilities:
                 r._Capabilities.append(self)
-        self._WorkTasks = value
+        self._WorkTasks = list(value)
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
@@ -120,7 +120,7 @@ class Capability(IdentifiedObject):
         for r in value:
             if self not in r._Capabilities:
                 r._Capabilities.append(self)
-        self._Crafts = value
+        self._Crafts = list(value)
 
     Crafts = property(getCrafts, setCrafts)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py b/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
index 921f5cb..254626a 100644
--- a/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
+++ b/CIM15/IEC61970/Informative/InfWork/CompatibleUnit.py
@@ -100,7 +100,7 @@ class CompatibleUnit(Document):
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._CUWorkEquipmentItems = value
+        self._CUWorkEquipmentItems = list(value)
 
     CUWorkEquipmentItems = property(getCUWorkEquipmentItems, setCUWorkEquipmentItems)
 
@@ -128,7 +128,7 @@ class CompatibleUnit(Document):
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._DesignLocationCUs = value
+        self._DesignLocationCUs = list(value)
 
     DesignLocationCUs = property(getDesignLocationCUs, setDesignLocationCUs)
 
@@ -172,7 +172,7 @@ class CompatibleUnit(Document):
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._CUAssets = value
+        self._CUAssets = list(value)
 
     CUAssets = property(getCUAssets, setCUAssets)
 
@@ -248,7 +248,7 @@ class CompatibleUnit(Document):
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._Procedures = value
+        self._Procedures = list(value)
 
     Procedures = property(getProcedures, setProcedures)
 
@@ -276,7 +276,7 @@ class CompatibleUnit(Document):
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._CUContractorItems = value
+        self._CUContractorItems = list(value)
 
     CUContractorItems = property(getCUContractorItems, setCUContractorItems)
 
@@ -304,7 +304,7 @@ class CompatibleUnit(Document):
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._CUMaterialItems = value
+        self._CUMaterialItems = list(value)
 
     CUMaterialItems = property(getCUMaterialItems, setCUMaterialItems)
 
@@ -332,7 +332,7 @@ class CompatibleUnit(Document):
         for r in value:
             if self not in r._CompatibleUnits:
                 r._CompatibleUnits.append(self)
-        self._CULaborItems = value
+        self._CULaborItems = list(value)
 
     CULaborItems = property(getCULaborItems, setCULaborItems)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py b/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
index 752ac08..51041d0 100644
--- a/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
+++ b/CIM15/IEC61970/Informative/InfWork/ConditionFactor.py
@@ -71,7 +71,7 @@ class ConditionFactor(IdentifiedObject):
         for r in value:
             if self not in r._ConditionFactors:
                 r._ConditionFactors.append(self)
-        self._Designs = value
+        self._Designs = list(value)
 
     Designs = property(getDesigns, setDesigns)
 
@@ -99,7 +99,7 @@ class ConditionFactor(IdentifiedObject):
         for r in value:
             if self not in r._ConditionFactors:
                 r._ConditionFactors.append(self)
-        self._DesignLocations = value
+        self._DesignLocations = list(value)
 
     DesignLocations = property(getDesignLocations, setDesignLocations)
 
@@ -129,7 +129,7 @@ class ConditionFactor(IdentifiedObject):
         for r in value:
             if self not in r._ConditionFactors:
                 r._ConditionFactors.append(self)
-        self._DesignLocationCUs = value
+        self._DesignLocationCUs = list(value)
 
     DesignLocationCUs = property(getDesignLocationCUs, setDesignLocationCUs)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/ContractorItem.py b/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
index 1cf4b1d..ccc055b 100644
--- a/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/ContractorItem.py
@@ -91,7 +91,7 @@ class ContractorItem(IdentifiedObject):
         for r in value:
             if self not in r._ContractorItems:
                 r._ContractorItems.append(self)
-        self._ErpPayables = value
+        self._ErpPayables = list(value)
 
     ErpPayables = property(getErpPayables, setErpPayables)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/CostType.py b/CIM15/IEC61970/Informative/InfWork/CostType.py
index eb39e3a..c37b558 100644
--- a/CIM15/IEC61970/Informative/InfWork/CostType.py
+++ b/CIM15/IEC61970/Informative/InfWork/CostType.py
@@ -87,7 +87,7 @@ class CostType(IdentifiedObject):
         for r in value:
             if self not in r._CostTypes:
                 r._CostTypes.append(self)
-        self._ErpJournalEntries = value
+        self._ErpJournalEntries = list(value)
 
     ErpJournalEntries = property(getErpJournalEntries, setErpJournalEntries)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Crew.py b/CIM15/IEC61970/Informative/InfWork/Crew.py
index 95e538e..9fff25a 100644
--- a/CIM15/IEC61970/Informative/InfWork/Crew.py
+++ b/CIM15/IEC61970/Informative/InfWork/Crew.py
@@ -125,7 +125,7 @@ class Crew(IdentifiedObject):
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._SwitchingSchedules = value
+        self._SwitchingSchedules = list(value)
 
     SwitchingSchedules = property(getSwitchingSchedules, setSwitchingSchedules)
 
@@ -190,7 +190,7 @@ class Crew(IdentifiedObject):
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._CrewMembers = value
+        self._CrewMembers = list(value)
 
     CrewMembers = property(getCrewMembers, setCrewMembers)
 
@@ -218,7 +218,7 @@ class Crew(IdentifiedObject):
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._OutageSteps = value
+        self._OutageSteps = list(value)
 
     OutageSteps = property(getOutageSteps, setOutageSteps)
 
@@ -267,7 +267,7 @@ class Crew(IdentifiedObject):
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._Assignments = value
+        self._Assignments = list(value)
 
     Assignments = property(getAssignments, setAssignments)
 
@@ -295,7 +295,7 @@ class Crew(IdentifiedObject):
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._Locations = value
+        self._Locations = list(value)
 
     Locations = property(getLocations, setLocations)
 
@@ -324,7 +324,7 @@ class Crew(IdentifiedObject):
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._WorkTasks = value
+        self._WorkTasks = list(value)
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
@@ -352,7 +352,7 @@ class Crew(IdentifiedObject):
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._Organisations = value
+        self._Organisations = list(value)
 
     Organisations = property(getOrganisations, setOrganisations)
 
@@ -380,7 +380,7 @@ class Crew(IdentifiedObject):
         for r in value:
             if self not in r._Crews:
                 r._Crews.append(self)
-        self._ShiftPatterns = value
+        self._ShiftPatterns = list(value)
 
     ShiftPatterns = property(getShiftPatterns, setShiftPatterns)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Design.py b/CIM15/IEC61970/Informative/InfWork/Design.py
index 92c6331..75b300a 100644
--- a/CIM15/IEC61970/Informative/InfWork/Design.py
+++ b/CIM15/IEC61970/Informative/InfWork/Design.py
@@ -92,7 +92,7 @@ class Design(Document):
         for r in value:
             if self not in r._Designs:
                 r._Designs.append(self)
-        self._DesignLocations = value
+        self._DesignLocations = list(value)
 
     DesignLocations = property(getDesignLocations, setDesignLocations)
 
@@ -140,7 +140,7 @@ class Design(Document):
         for r in value:
             if self not in r._Designs:
                 r._Designs.append(self)
-        self._ConditionFactors = value
+        self._ConditionFactors = list(value)
 
     ConditionFactors = property(getConditionFactors, setConditionFactors)
 
@@ -224,7 +224,7 @@ class Design(Document):
         for r in value:
             if self not in r._Designs:
                 r._Designs.append(self)
-        self._DesignLocationsCUs = value
+        self._DesignLocationsCUs = list(value)
 
     DesignLocationsCUs = property(getDesignLocationsCUs, setDesignLocationsCUs)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
index dc04cd5..8d461db 100644
--- a/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
+++ b/CIM15/IEC61970/Informative/InfWork/DesignLocation.py
@@ -109,7 +109,7 @@ class DesignLocation(IdentifiedObject):
         for r in value:
             if self not in r._DesignLocations:
                 r._DesignLocations.append(self)
-        self._Designs = value
+        self._Designs = list(value)
 
     Designs = property(getDesigns, setDesigns)
 
@@ -157,7 +157,7 @@ class DesignLocation(IdentifiedObject):
         for r in value:
             if self not in r._DesignLocations:
                 r._DesignLocations.append(self)
-        self._WorkLocations = value
+        self._WorkLocations = list(value)
 
     WorkLocations = property(getWorkLocations, setWorkLocations)
 
@@ -185,7 +185,7 @@ class DesignLocation(IdentifiedObject):
         for r in value:
             if self not in r._DesignLocations:
                 r._DesignLocations.append(self)
-        self._Diagrams = value
+        self._Diagrams = list(value)
 
     Diagrams = property(getDiagrams, setDiagrams)
 
@@ -253,7 +253,7 @@ class DesignLocation(IdentifiedObject):
         for r in value:
             if self not in r._DesignLocations:
                 r._DesignLocations.append(self)
-        self._ConditionFactors = value
+        self._ConditionFactors = list(value)
 
     ConditionFactors = property(getConditionFactors, setConditionFactors)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py b/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
index c85bd54..13dd960 100644
--- a/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
+++ b/CIM15/IEC61970/Informative/InfWork/DesignLocationCU.py
@@ -99,7 +99,7 @@ class DesignLocationCU(IdentifiedObject):
         for r in value:
             if self not in r._DesignLocationCUs:
                 r._DesignLocationCUs.append(self)
-        self._ConditionFactors = value
+        self._ConditionFactors = list(value)
 
     ConditionFactors = property(getConditionFactors, setConditionFactors)
 
@@ -127,7 +127,7 @@ class DesignLocationCU(IdentifiedObject):
         for r in value:
             if self not in r._DesignLocationCUs:
                 r._DesignLocationCUs.append(self)
-        self._CompatibleUnits = value
+        self._CompatibleUnits = list(value)
 
     CompatibleUnits = property(getCompatibleUnits, setCompatibleUnits)
 
@@ -155,7 +155,7 @@ class DesignLocationCU(IdentifiedObject):
         for r in value:
             if self not in r._DesignLocationCUs:
                 r._DesignLocationCUs.append(self)
-        self._WorkTasks = value
+        self._WorkTasks = list(value)
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
@@ -183,7 +183,7 @@ class DesignLocationCU(IdentifiedObject):
         for r in value:
             if self not in r._DesignLocationsCUs:
                 r._DesignLocationsCUs.append(self)
-        self._Designs = value
+        self._Designs = list(value)
 
     Designs = property(getDesigns, setDesigns)
 
@@ -211,7 +211,7 @@ class DesignLocationCU(IdentifiedObject):
         for r in value:
             if self not in r._DesignLocationCUs:
                 r._DesignLocationCUs.append(self)
-        self._CUGroups = value
+        self._CUGroups = list(value)
 
     CUGroups = property(getCUGroups, setCUGroups)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/LaborItem.py b/CIM15/IEC61970/Informative/InfWork/LaborItem.py
index 554fe3a..b0d8be3 100644
--- a/CIM15/IEC61970/Informative/InfWork/LaborItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/LaborItem.py
@@ -79,7 +79,7 @@ class LaborItem(IdentifiedObject):
         for r in value:
             if self not in r._LaborItems:
                 r._LaborItems.append(self)
-        self._ErpPersons = value
+        self._ErpPersons = list(value)
 
     ErpPersons = property(getErpPersons, setErpPersons)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
index 8eb32ee..f9f06c4 100644
--- a/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
+++ b/CIM15/IEC61970/Informative/InfWork/MaterialItem.py
@@ -171,7 +171,7 @@ class MaterialItem(IdentifiedObject):
         for r in value:
             if self not in r._MaterialItems:
                 r._MaterialItems.append(self)
-        self._ErpRecDelvLineItems = value
+        self._ErpRecDelvLineItems = list(value)
 
     ErpRecDelvLineItems = property(getErpRecDelvLineItems, setErpRecDelvLineItems)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Project.py b/CIM15/IEC61970/Informative/InfWork/Project.py
index 82a5b9f..5cc405e 100644
--- a/CIM15/IEC61970/Informative/InfWork/Project.py
+++ b/CIM15/IEC61970/Informative/InfWork/Project.py
@@ -128,7 +128,7 @@ class Project(Document):
         for r in value:
             if self not in r._Projects:
                 r._Projects.append(self)
-        self._Requests = value
+        self._Requests = list(value)
 
     Requests = property(getRequests, setRequests)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
index 9eceb4d..319da83 100644
--- a/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
+++ b/CIM15/IEC61970/Informative/InfWork/PropertyUnit.py
@@ -97,7 +97,7 @@ class PropertyUnit(IdentifiedObject):
         for r in value:
             if self not in r._PropertyUnits:
                 r._PropertyUnits.append(self)
-        self._CUMaterialItems = value
+        self._CUMaterialItems = list(value)
 
     CUMaterialItems = property(getCUMaterialItems, setCUMaterialItems)
 
@@ -125,7 +125,7 @@ class PropertyUnit(IdentifiedObject):
         for r in value:
             if self not in r._PropertyUnits:
                 r._PropertyUnits.append(self)
-        self._WorkCostDetails = value
+        self._WorkCostDetails = list(value)
 
     WorkCostDetails = property(getWorkCostDetails, setWorkCostDetails)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py b/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
index 666014e..1ced3be 100644
--- a/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
+++ b/CIM15/IEC61970/Informative/InfWork/QualificationRequirement.py
@@ -68,7 +68,7 @@ class QualificationRequirement(IdentifiedObject):
         for r in value:
             if self not in r._QualificationRequirements:
                 r._QualificationRequirements.append(self)
-        self._WorkTasks = value
+        self._WorkTasks = list(value)
 
     WorkTasks = property(getWorkTasks, setWorkTasks)
 
@@ -96,7 +96,7 @@ class QualificationRequirement(IdentifiedObject):
         for r in value:
             if self not in r._QualificationRequirements:
                 r._QualificationRequirements.append(self)
-        self._Skills = value
+        self._Skills = list(value)
 
     Skills = property(getSkills, setSkills)
 
@@ -124,7 +124,7 @@ class QualificationRequirement(IdentifiedObject):
         for r in value:
             if self not in r._QualificationRequirements:
                 r._QualificationRequirements.append(self)
-        self._CULaborItems = value
+        self._CULaborItems = list(value)
 
     CULaborItems = property(getCULaborItems, setCULaborItems)
 
@@ -152,7 +152,7 @@ class QualificationRequirement(IdentifiedObject):
         for r in value:
             if self not in r._QualificationRequirements:
                 r._QualificationRequirements.append(self)
-        self._Specifications = value
+        self._Specifications = list(value)
 
     Specifications = property(getSpecifications, setSpecifications)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/Request.py b/CIM15/IEC61970/Informative/InfWork/Request.py
index 7063b97..5c4cf05 100644
--- a/CIM15/IEC61970/Informative/InfWork/Request.py
+++ b/CIM15/IEC61970/Informative/InfWork/Request.py
@@ -91,7 +91,7 @@ class Request(Document):
         for r in value:
             if self not in r._Requests:
                 r._Requests.append(self)
-        self._Projects = value
+        self._Projects = list(value)
 
     Projects = property(getProjects, setProjects)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py b/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
index 1dbd0b1..0725564 100644
--- a/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
+++ b/CIM15/IEC61970/Informative/InfWork/ShiftPattern.py
@@ -66,7 +66,7 @@ class ShiftPattern(IdentifiedObject):
         for r in value:
             if self not in r._ShiftPatterns:
                 r._ShiftPatterns.append(self)
-        self._Crews = value
+        self._Crews = list(value)
 
     Crews = property(getCrews, setCrews)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
index 96fcda5..1065ef7 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkCostDetail.py
@@ -132,7 +132,7 @@ class WorkCostDetail(Document):
         for r in value:
             if self not in r._WorkCostDetails:
                 r._WorkCostDetails.append(self)
-        self._Works = value
+        self._Works = list(value)
 
     Works = property(getWorks, setWorks)
 
@@ -211,7 +211,7 @@ class WorkCostDetail(Document):
         for r in value:
             if self not in r._WorkCostDetails:
                 r._WorkCostDetails.append(self)
-        self._PropertyUnits = value
+        self._PropertyUnits = list(value)
 
     PropertyUnits = property(getPropertyUnits, setPropertyUnits)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkLocation.py b/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
index b40d70c..e54cca1 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkLocation.py
@@ -88,7 +88,7 @@ class WorkLocation(Location):
         for r in value:
             if self not in r._WorkLocations:
                 r._WorkLocations.append(self)
-        self._DesignLocations = value
+        self._DesignLocations = list(value)
 
     DesignLocations = property(getDesignLocations, setDesignLocations)
 
diff --git a/CIM15/IEC61970/Informative/InfWork/WorkTask.py b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
index 65de021..8ecbb03 100644
--- a/CIM15/IEC61970/Informative/InfWork/WorkTask.py
+++ b/CIM15/IEC61970/Informative/InfWork/WorkTask.py
@@ -185,7 +185,7 @@ class WorkTask(Document):
         for r in value:
             if self not in r._WorkTasks:
                 r._WorkTasks.append(self)
-        self._Crews = value
+        self._Crews = list(value)
 
     Crews = property(getCrews, setCrews)
 
@@ -245,7 +245,7 @@ class WorkTask(Document):
         for r in value:
             if self not in r._WorkTasks:
                 r._WorkTasks.append(self)
-        self._DesignLocationCUs = value
+        self._DesignLocationCUs = list(value)
 
     DesignLocationCUs = property(getDesignLocationCUs, setDesignLocationCUs)
 
@@ -345,7 +345,7 @@ class WorkTask(Document):
         for r in value:
             if self not in r._WorkTasks:
                 r._WorkTasks.append(self)
-        self._QualificationRequirements = value
+        self._QualificationRequirements = list(value)
 
     QualificationRequirements = property(getQualificationRequirements, setQualificationRequirements)
 
@@ -373,7 +373,7 @@ class WorkTask(Document):
         for r in value:
             if self not in r._WorkTasks:
                 r._WorkTasks.append(self)
-        self._Capabilities = value
+        self._Capabilities = list(value)
 
     Capabilities = property(getCapabilities, setCapabilities)
 
diff --git a/CIM15/IEC61970/Meas/Accumulator.py b/CIM15/IEC61970/Meas/Accumulator.py
index 3f59648..cad011f 100644
--- a/CIM15/IEC61970/Meas/Accumulator.py
+++ b/CIM15/IEC61970/Meas/Accumulator.py
@@ -61,7 +61,7 @@ class Accumulator(Measurement):
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._LimitSets = value
+        self._LimitSets = list(value)
 
     LimitSets = property(getLimitSets, setLimitSets)
 
diff --git a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
index 2713b60..1f468a1 100644
--- a/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
+++ b/CIM15/IEC61970/Meas/AccumulatorLimitSet.py
@@ -78,7 +78,7 @@ class AccumulatorLimitSet(LimitSet):
         for r in value:
             if self not in r._LimitSets:
                 r._LimitSets.append(self)
-        self._Measurements = value
+        self._Measurements = list(value)
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM15/IEC61970/Meas/Analog.py b/CIM15/IEC61970/Meas/Analog.py
index 58b71c6..866ee46 100644
--- a/CIM15/IEC61970/Meas/Analog.py
+++ b/CIM15/IEC61970/Meas/Analog.py
@@ -77,7 +77,7 @@ class Analog(Measurement):
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._LimitSets = value
+        self._LimitSets = list(value)
 
     LimitSets = property(getLimitSets, setLimitSets)
 
diff --git a/CIM15/IEC61970/Meas/AnalogLimitSet.py b/CIM15/IEC61970/Meas/AnalogLimitSet.py
index 2f67cb1..2b65381 100644
--- a/CIM15/IEC61970/Meas/AnalogLimitSet.py
+++ b/CIM15/IEC61970/Meas/AnalogLimitSet.py
@@ -78,7 +78,7 @@ class AnalogLimitSet(LimitSet):
         for r in value:
             if self not in r._LimitSets:
                 r._LimitSets.append(self)
-        self._Measurements = value
+        self._Measurements = list(value)
 
     Measurements = property(getMeasurements, setMeasurements)
 
diff --git a/CIM15/IEC61970/Meas/Limit.py b/CIM15/IEC61970/Meas/Limit.py
index 57c8db0..08f85c3 100644
--- a/CIM15/IEC61970/Meas/Limit.py
+++ b/CIM15/IEC61970/Meas/Limit.py
@@ -52,7 +52,7 @@ class Limit(IdentifiedObject):
         for r in value:
             if self not in r._Limits:
                 r._Limits.append(self)
-        self._Procedures = value
+        self._Procedures = list(value)
 
     Procedures = property(getProcedures, setProcedures)
 
diff --git a/CIM15/IEC61970/Meas/Measurement.py b/CIM15/IEC61970/Meas/Measurement.py
index b1f5458..600f102 100644
--- a/CIM15/IEC61970/Meas/Measurement.py
+++ b/CIM15/IEC61970/Meas/Measurement.py
@@ -118,7 +118,7 @@ class Measurement(IdentifiedObject):
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._Locations = value
+        self._Locations = list(value)
 
     Locations = property(getLocations, setLocations)
 
@@ -163,7 +163,7 @@ class Measurement(IdentifiedObject):
         for r in value:
             if self not in r._Measurements:
                 r._Measurements.append(self)
-        self._Documents = value
+        self._Documents = list(value)
 
     Documents = property(getDocuments, setDocuments)
 
diff --git a/CIM15/IEC61970/Meas/MeasurementValue.py b/CIM15/IEC61970/Meas/MeasurementValue.py
index 173e11c..4070030 100644
--- a/CIM15/IEC61970/Meas/MeasurementValue.py
+++ b/CIM15/IEC61970/Meas/MeasurementValue.py
@@ -116,7 +116,7 @@ class MeasurementValue(IdentifiedObject):
         for r in value:
             if self not in r._MeasurementValues:
                 r._MeasurementValues.append(self)
-        self._ProcedureDataSets = value
+        self._ProcedureDataSets = list(value)
 
     ProcedureDataSets = property(getProcedureDataSets, setProcedureDataSets)
 
diff --git a/CIM15/IEC61970/Outage/SwitchingOperation.py b/CIM15/IEC61970/Outage/SwitchingOperation.py
index a2ad738..0143fe9 100644
--- a/CIM15/IEC61970/Outage/SwitchingOperation.py
+++ b/CIM15/IEC61970/Outage/SwitchingOperation.py
@@ -82,7 +82,7 @@ class SwitchingOperation(IdentifiedObject):
         for r in value:
             if self not in r._SwitchingOperations:
                 r._SwitchingOperations.append(self)
-        self._Switches = value
+        self._Switches = list(value)
 
     Switches = property(getSwitches, setSwitches)
 
diff --git a/CIM15/IEC61970/Protection/ProtectionEquipment.py b/CIM15/IEC61970/Protection/ProtectionEquipment.py
index 423302b..6014055 100644
--- a/CIM15/IEC61970/Protection/ProtectionEquipment.py
+++ b/CIM15/IEC61970/Protection/ProtectionEquipment.py
@@ -81,7 +81,7 @@ class ProtectionEquipment(Equipment):
         for r in value:
             if self not in r._ProtectionEquipments:
                 r._ProtectionEquipments.append(self)
-        self._ConductingEquipments = value
+        self._ConductingEquipments = list(value)
 
     ConductingEquipments = property(getConductingEquipments, setConductingEquipments)
 
@@ -110,7 +110,7 @@ class ProtectionEquipment(Equipment):
         for r in value:
             if self not in r._ProtectionEquipments:
                 r._ProtectionEquipments.append(self)
-        self._ProtectedSwitches = value
+        self._ProtectedSwitches = list(value)
 
     ProtectedSwitches = property(getProtectedSwitches, setProtectedSwitches)
 
diff --git a/CIM15/IEC61970/SCADA/CommunicationLink.py b/CIM15/IEC61970/SCADA/CommunicationLink.py
index e5c11b4..fb7e124 100644
--- a/CIM15/IEC61970/SCADA/CommunicationLink.py
+++ b/CIM15/IEC61970/SCADA/CommunicationLink.py
@@ -53,7 +53,7 @@ class CommunicationLink(PowerSystemResource):
         for r in value:
             if self not in r._CommunicationLinks:
                 r._CommunicationLinks.append(self)
-        self._RemoteUnits = value
+        self._RemoteUnits = list(value)
 
     RemoteUnits = property(getRemoteUnits, setRemoteUnits)
 
diff --git a/CIM15/IEC61970/SCADA/RemoteUnit.py b/CIM15/IEC61970/SCADA/RemoteUnit.py
index e7c0875..ca51bea 100644
--- a/CIM15/IEC61970/SCADA/RemoteUnit.py
+++ b/CIM15/IEC61970/SCADA/RemoteUnit.py
@@ -82,7 +82,7 @@ class RemoteUnit(PowerSystemResource):
         for r in value:
             if self not in r._RemoteUnits:
                 r._RemoteUnits.append(self)
-        self._CommunicationLinks = value
+        self._CommunicationLinks = list(value)
 
     CommunicationLinks = property(getCommunicationLinks, setCommunicationLinks)
 
diff --git a/CIM15/IEC61970/Wires/ACLineSegment.py b/CIM15/IEC61970/Wires/ACLineSegment.py
index a8f1d4b..ff9dd54 100644
--- a/CIM15/IEC61970/Wires/ACLineSegment.py
+++ b/CIM15/IEC61970/Wires/ACLineSegment.py
@@ -261,7 +261,7 @@ class ACLineSegment(Conductor):
         for r in value:
             if self not in r._ACLineSegments:
                 r._ACLineSegments.append(self)
-        self._CurrentTemperatureCurves = value
+        self._CurrentTemperatureCurves = list(value)
 
     CurrentTemperatureCurves = property(getCurrentTemperatureCurves, setCurrentTemperatureCurves)
 
diff --git a/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py b/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
index 6845783..a77ed31 100644
--- a/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
+++ b/CIM15/IEC61970/Wires/CurrentTemperatureCurve.py
@@ -50,7 +50,7 @@ class CurrentTemperatureCurve(Curve):
         for r in value:
             if self not in r._CurrentTemperatureCurves:
                 r._CurrentTemperatureCurves.append(self)
-        self._ACLineSegments = value
+        self._ACLineSegments = list(value)
 
     ACLineSegments = property(getACLineSegments, setACLineSegments)
 
diff --git a/CIM15/IEC61970/Wires/ProtectedSwitch.py b/CIM15/IEC61970/Wires/ProtectedSwitch.py
index 56c5ef9..1030438 100644
--- a/CIM15/IEC61970/Wires/ProtectedSwitch.py
+++ b/CIM15/IEC61970/Wires/ProtectedSwitch.py
@@ -61,7 +61,7 @@ class ProtectedSwitch(Switch):
         for r in value:
             if self not in r._ProtectedSwitches:
                 r._ProtectedSwitches.append(self)
-        self._ProtectionEquipments = value
+        self._ProtectionEquipments = list(value)
 
     ProtectionEquipments = property(getProtectionEquipments, setProtectionEquipments)
 
diff --git a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
index 77373cf..9c57b75 100644
--- a/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
+++ b/CIM15/IEC61970/Wires/ReactiveCapabilityCurve.py
@@ -86,7 +86,7 @@ class ReactiveCapabilityCurve(Curve):
         for r in value:
             if self not in r._ReactiveCapabilityCurves:
                 r._ReactiveCapabilityCurves.append(self)
-        self._SynchronousMachines = value
+        self._SynchronousMachines = list(value)
 
     SynchronousMachines = property(getSynchronousMachines, setSynchronousMachines)
 
diff --git a/CIM15/IEC61970/Wires/Switch.py b/CIM15/IEC61970/Wires/Switch.py
index abc0565..fd53b80 100644
--- a/CIM15/IEC61970/Wires/Switch.py
+++ b/CIM15/IEC61970/Wires/Switch.py
@@ -93,7 +93,7 @@ class Switch(ConductingEquipment):
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
-        self._SwitchingOperations = value
+        self._SwitchingOperations = list(value)
 
     SwitchingOperations = property(getSwitchingOperations, setSwitchingOperations)
 
@@ -121,7 +121,7 @@ class Switch(ConductingEquipment):
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
-        self._LoadMgmtFunctions = value
+        self._LoadMgmtFunctions = list(value)
 
     LoadMgmtFunctions = property(getLoadMgmtFunctions, setLoadMgmtFunctions)
 
@@ -149,7 +149,7 @@ class Switch(ConductingEquipment):
         for r in value:
             if self not in r._Switches:
                 r._Switches.append(self)
-        self._ConnectDisconnectFunctions = value
+        self._ConnectDisconnectFunctions = list(value)
 
     ConnectDisconnectFunctions = property(getConnectDisconnectFunctions, setConnectDisconnectFunctions)
 
diff --git a/CIM15/IEC61970/Wires/SynchronousMachine.py b/CIM15/IEC61970/Wires/SynchronousMachine.py
index d0539f3..cc607f1 100644
--- a/CIM15/IEC61970/Wires/SynchronousMachine.py
+++ b/CIM15/IEC61970/Wires/SynchronousMachine.py
@@ -189,7 +189,7 @@ class SynchronousMachine(RegulatingCondEq):
         for r in value:
             if self not in r._SynchronousMachines:
                 r._SynchronousMachines.append(self)
-        self._PrimeMovers = value
+        self._PrimeMovers = list(value)
 
     PrimeMovers = property(getPrimeMovers, setPrimeMovers)
 
@@ -235,7 +235,7 @@ class SynchronousMachine(RegulatingCondEq):
         for r in value:
             if self not in r._SynchronousMachines:
                 r._SynchronousMachines.append(self)
-        self._ReactiveCapabilityCurves = value
+        self._ReactiveCapabilityCurves = list(value)
 
     ReactiveCapabilityCurves = property(getReactiveCapabilityCurves, setReactiveCapabilityCurves)
 
diff --git a/CIM15/IEC61970/Wires/TransformerEnd.py b/CIM15/IEC61970/Wires/TransformerEnd.py
index faf17ee..1498f27 100644
--- a/CIM15/IEC61970/Wires/TransformerEnd.py
+++ b/CIM15/IEC61970/Wires/TransformerEnd.py
@@ -279,7 +279,7 @@ class TransformerEnd(IdentifiedObject):
         for r in value:
             if self not in r._ToTransformerEnd:
                 r._ToTransformerEnd.append(self)
-        self._ToMeshImpedance = value
+        self._ToMeshImpedance = list(value)
 
     ToMeshImpedance = property(getToMeshImpedance, setToMeshImpedance)
 
diff --git a/CIM15/IEC61970/Wires/TransformerMeshImpedance.py b/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
index eff8beb..ffba99a 100644
--- a/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
+++ b/CIM15/IEC61970/Wires/TransformerMeshImpedance.py
@@ -98,7 +98,7 @@ class TransformerMeshImpedance(IdentifiedObject):
         for r in value:
             if self not in r._ToMeshImpedance:
                 r._ToMeshImpedance.append(self)
-        self._ToTransformerEnd = value
+        self._ToTransformerEnd = list(value)
 
     ToTransformerEnd = property(getToTransformerEnd, setToTransformerEnd)
 
@@ -127,7 +127,7 @@ class TransformerMeshImpedance(IdentifiedObject):
         for r in value:
             if self not in r._ToMeshImpedance:
                 r._ToMeshImpedance.append(self)
-        self._ToTransformerEndInfo = value
+        self._ToTransformerEndInfo = list(value)
 
     ToTransformerEndInfo = property(getToTransformerEndInfo, setToTransformerEndInfo)
 
diff --git a/CIM15/IEC62325/MarketParticipant.py b/CIM15/IEC62325/MarketParticipant.py
index 5dad924..04f97db 100644
--- a/CIM15/IEC62325/MarketParticipant.py
+++ b/CIM15/IEC62325/MarketParticipant.py
@@ -51,7 +51,7 @@ class MarketParticipant(Organisation):
         for r in value:
             if self not in r._MarketParticipants:
                 r._MarketParticipants.append(self)
-        self._MarketRoles = value
+        self._MarketRoles = list(value)
 
     MarketRoles = property(getMarketRoles, setMarketRoles)
 
diff --git a/CIM15/IEC62325/MarketRole.py b/CIM15/IEC62325/MarketRole.py
index 2b5068d..a1ae0f8 100644
--- a/CIM15/IEC62325/MarketRole.py
+++ b/CIM15/IEC62325/MarketRole.py
@@ -62,7 +62,7 @@ class MarketRole(IdentifiedObject):
         for r in value:
             if self not in r._MarketRoles:
                 r._MarketRoles.append(self)
-        self._MarketParticipants = value
+        self._MarketParticipants = list(value)
 
     MarketParticipants = property(getMarketParticipants, setMarketParticipants)
 
-- 
2.43.0


From 962fe62a4da27e2d772faa2e89baf1733d90b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:56 +0000
Subject: [PATCH 05/29] fix: make ErpLedgerEntry and ErpLedBudLineItem
 instantiable

Their constructors have a parameter that shadows the class name used in super().
---
 CIM15/IEC61970/Informative/InfERPSupport/ErpLedBudLineItem.py | 2 +-
 CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedBudLineItem.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedBudLineItem.py
index 6ce04bb..94cba7d 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedBudLineItem.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedBudLineItem.py
@@ -39,7 +39,7 @@ class ErpLedBudLineItem(IdentifiedObject):
 
         self.status = status
 
-        super(ErpLedBudLineItem, self).__init__(*args, **kw_args)
+        IdentifiedObject.__init__(self, *args, **kw_args)
 
     _attrs = []
     _attr_types = {}
diff --git a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
index 6158aad..878d309 100644
--- a/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
+++ b/CIM15/IEC61970/Informative/InfERPSupport/ErpLedgerEntry.py
@@ -67,7 +67,7 @@ class ErpLedgerEntry(IdentifiedObject):
         self._ErpJounalEntry = None
         self.ErpJounalEntry = ErpJounalEntry
 
-        super(ErpLedgerEntry, self).__init__(*args, **kw_args)
+        IdentifiedObject.__init__(self, *args, **kw_args)
 
     _attrs = ["transactionDateTime", "accountKind", "amount", "postedDateTime", "accountID"]
     _attr_types = {"transactionDateTime": str, "accountKind": str, "amount": float, "postedDateTime": str, "accountID": str}
-- 
2.43.0


From df8e50cf763b50c21369863cbba6ced89a5f2d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:56 +0000
Subject: [PATCH 06/29] fix: describe the phase attribute of load and line
 segment phases consistently

EnergyConsumerPhase.phase was missing from the attribute tables and so lost on
writing; an unset phase was written as the literal 'None'.
---
 CIM15/IEC61970/WiresPhaseModel/ACLineSegmentPhase.py  | 2 +-
 CIM15/IEC61970/WiresPhaseModel/EnergyConsumerPhase.py | 8 ++++----
 PyCIM/RDFXMLWriter.py                                 | 2 ++
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/CIM15/IEC61970/WiresPhaseModel/ACLineSegmentPhase.py b/CIM15/IEC61970/WiresPhaseModel/ACLineSegmentPhase.py
index 5e4cb57..5fb5077 100644
--- a/CIM15/IEC61970/WiresPhaseModel/ACLineSegmentPhase.py
+++ b/CIM15/IEC61970/WiresPhaseModel/ACLineSegmentPhase.py
@@ -38,7 +38,7 @@ class ACLineSegmentPhase(PowerSystemResource):
 
     _attrs = ["phase"]
     _attr_types = {"phase": str}
-    _defaults = {"phase": "C"}
+    _defaults = {"phase": None}
     _enums = {"phase": "SinglePhaseKind"}
     _refs = ["ACLineSegment"]
     _many_refs = []
diff --git a/CIM15/IEC61970/WiresPhaseModel/EnergyConsumerPhase.py b/CIM15/IEC61970/WiresPhaseModel/EnergyConsumerPhase.py
index 98cc2a4..1d7148d 100644
--- a/CIM15/IEC61970/WiresPhaseModel/EnergyConsumerPhase.py
+++ b/CIM15/IEC61970/WiresPhaseModel/EnergyConsumerPhase.py
@@ -37,10 +37,10 @@ class EnergyConsumerPhase(PowerSystemResource):
 
         super(EnergyConsumerPhase, self).__init__(*args, **kw_args)
 
-    _attrs = ["pfixed", "qfixed"]
-    _attr_types = {"pfixed": float, "qfixed": float}
-    _defaults = {"pfixed": 0.0, "qfixed": 0.0}
-    _enums = {}
+    _attrs = ["phase", "pfixed", "qfixed"]
+    _attr_types = {"phase": str, "pfixed": float, "qfixed": float}
+    _defaults = {"phase": None, "pfixed": 0.0, "qfixed": 0.0}
+    _enums = {"phase": "SinglePhaseKind"}
     _refs = ["EnergyConsumer"]
     _many_refs = []
 
diff --git a/PyCIM/RDFXMLWriter.py b/PyCIM/RDFXMLWriter.py
index e5a3c4e..dbc8889 100644
--- a/PyCIM/RDFXMLWriter.py
+++ b/PyCIM/RDFXMLWriter.py
@@ -82,6 +82,8 @@ def cimwrite(d, source, encoding="utf-8"):
             enums = [a for a in klass._attrs if a in klass._enums]
             for enum in enums:
                 val = getattr(obj, enum)
+                if val is None: # no literal to refer to
+                    continue
                 dt = klass._enums[enum]
                 w.element(u"%s:%s.%s" % (nsPrefix, klass.__name__, enum),
                           attrib={u"%s:resource" % nsPrefixRDF:
-- 
2.43.0


From b17d74118751d6591b150c2298edf6e54327d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:05 +0000
Subject: [PATCH 07/29] fix: let the CIM14 Dynamics packages be imported before
 Wires

Reading a document whose first element is a Dynamics class failed with
ImportError because of the import cycle.
---
 CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/__init__.py | 3 +++
 CIM14/IEC61970/Dynamics/__init__.py                 | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/__init__.py b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/__init__.py
index c926d7c..605579f 100644
--- a/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/__init__.py
+++ b/CIM14/ENTSOE/Dynamics/IEC61970/Dynamics/__init__.py
@@ -19,6 +19,9 @@
 # IN THE SOFTWARE.
 
 
+# Wires and Dynamics depend on each other and only load in this order.
+import CIM14.ENTSOE.Dynamics.IEC61970.Wires
+
 from CIM14.ENTSOE.Dynamics.IEC61970.Dynamics.DynamicsMetaBlockState import DynamicsMetaBlockState
 from CIM14.ENTSOE.Dynamics.IEC61970.Dynamics.DynamicsMetaBlockConSignal import DynamicsMetaBlockConSignal
 from CIM14.ENTSOE.Dynamics.IEC61970.Dynamics.DynamicsMetaBlockReference import DynamicsMetaBlockReference
diff --git a/CIM14/IEC61970/Dynamics/__init__.py b/CIM14/IEC61970/Dynamics/__init__.py
index 78b7045..81a3835 100644
--- a/CIM14/IEC61970/Dynamics/__init__.py
+++ b/CIM14/IEC61970/Dynamics/__init__.py
@@ -21,6 +21,9 @@
 """This package models generalized dynamic models. Standard models and user defined dynamics models are included.  In some ways this duplicates the partial modeling that was done in the GenerationDynamics package, but it far exceeds that package in terms of flexibility and extensibility.   This package does not attempt to fully specficfy all possible dynamics models in specific UML, but rather builds a framework in which to exchange standard or custom dyanmics models based on 'well known' block functions.The Dynamics package isn't officially part of IEC 61970.
 """
 
+# Wires and Dynamics depend on each other and only load in this order.
+import CIM14.IEC61970.Wires
+
 from CIM14.IEC61970.Dynamics.BlockConnection import BlockConnection
 from CIM14.IEC61970.Dynamics.RotatingMachine import RotatingMachine
 from CIM14.IEC61970.Dynamics.AsynchronousMachine import AsynchronousMachine
-- 
2.43.0


From 47d5c511d22ce5c88df38db7ca58fd5654e66932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:56 +0000
Subject: [PATCH 08/29] fix: read an empty text attribute as '' and not as
 'None'

---
 PyCIM/RDFXMLReader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 84ade65..6aa0a75 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -175,7 +175,10 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                                         else:
                                             setattr(obj, attr, False)
                                     else:
-                                        setattr(obj, attr, typ(elem.text))
+                                        text = elem.text
+                                        if text is None and typ == str:
+                                            text = '' # empty element
+                                        setattr(obj, attr, typ(text))
                                 except TypeError:
                                     pass
                             else:  # reference or enum
-- 
2.43.0


From 7b2c8fc0de2cbe077de816016490caf7e2bdbc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:59 +0000
Subject: [PATCH 09/29] fix: read the xsd:boolean form '1' and padded booleans
 as true

---
 PyCIM/RDFXMLReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 6aa0a75..13bcbd3 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -170,7 +170,7 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                                     if typ == type(True): # KKG: Test if it is boolean value
                                         # KKG: NB: The function bool("false") returns True, because it is called upon non-empty string!
                                         # This means that it wrongly reads "false" value as boolean True and this is why this special case testing is necessary
-                                        if str.title(elem.text) == 'True':
+                                        if str.title(elem.text).strip() in ('True', '1'):
                                             setattr(obj, attr, True)
                                         else:
                                             setattr(obj, attr, False)
-- 
2.43.0


From b104365e3950b9c4c12c732ed162e8245817ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:02 +0000
Subject: [PATCH 10/29] fix: keep an already known object when a document
 describes it again

Reading into start_dict replaced the object by an empty one, losing its values
and leaving the objects linked to it with the abandoned instance.
---
 PyCIM/RDFXMLReader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 13bcbd3..91b88f1 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -105,8 +105,10 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                 # Get the CIM class from the module.
                 klass = getattr(module, tag)
 
-                # Instantiate the class and map it to the uuid.
-                d[uuid] = klass(UUID=uuid)
+                # Instantiate the class and map it to the uuid. An object
+                # that is already there is described further, not replaced.
+                if not isinstance(d.get(uuid), klass):
+                    d[uuid] = klass(UUID=uuid)
 
         # Clear children of the root element to minimise memory usage.
         root.clear()
-- 
2.43.0


From fec897953913be102e26447e24d8f43a317c9515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:06 +0000
Subject: [PATCH 11/29] fix: read references of one-directional 'many'
 associations

Their add method has a different name, so reading raised AttributeError.
---
 PyCIM/RDFXMLReader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 91b88f1..dc06f64 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -203,7 +203,11 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                                         setattr(obj, attr, val)
                                     elif isinstance(default, list): # many
                                         # Use 'add*' method to set reference.
-                                        getattr(obj, ("add%s" % attr))(val)
+                                        # One-directional ones have 'add_*'.
+                                        add = getattr(obj, "add%s" % attr,
+                                                None) or \
+                                                getattr(obj, "add_%s" % attr)
+                                        add(val)
 #                                    else:
 #                                        logger.error("Reference error [%s].",
 #                                                     default)
-- 
2.43.0


From 6f70371f2a6c02045e38cc89a4267bcf62807587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:09 +0000
Subject: [PATCH 12/29] fix: write CIM14 objects under the CIM14 namespace

They were written under the CIM15 namespace and so read back as CIM15 classes.
---
 PyCIM/RDFXMLWriter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLWriter.py b/PyCIM/RDFXMLWriter.py
index dbc8889..ef88704 100644
--- a/PyCIM/RDFXMLWriter.py
+++ b/PyCIM/RDFXMLWriter.py
@@ -22,6 +22,7 @@ import logging
 
 from time import time
 
+from CIM14 import nsURI as nsURI14
 from CIM15 import nsURI, nsPrefix
 
 from PyCIM.SimpleXMLWriter import XMLWriter
@@ -53,8 +54,15 @@ def cimwrite(d, source, encoding="utf-8"):
     # Write the XML declaration.
     w.declaration()
 
+    # Use the namespace of the CIM version that the objects belong to.
+    nsCIM = nsURI
+    for obj in d.values():
+        if obj.__class__.__module__.split(".")[0] == "CIM14":
+            nsCIM = nsURI14
+        break
+
     # Add a '#' suffix to the CIM namespace URI if not present.
-    nsCIM = nsURI if nsURI[-1] == "#" else nsURI + "#"
+    nsCIM = nsCIM if nsCIM[-1] == "#" else nsCIM + "#"
 
     # Start the root RDF element and declare namespaces.
     xmlns = {u"xmlns:%s" % nsPrefixRDF: nsRDF, u"xmlns:%s" % nsPrefix: nsCIM}
-- 
2.43.0


From ce80cee4cc68fa4bb08fe014ce0466a8b0cec526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 13/29] fix: return the documented success value from cimwrite

---
 PyCIM/RDFXMLWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyCIM/RDFXMLWriter.py b/PyCIM/RDFXMLWriter.py
index ef88704..e5e5b07 100644
--- a/PyCIM/RDFXMLWriter.py
+++ b/PyCIM/RDFXMLWriter.py
@@ -118,6 +118,8 @@ def cimwrite(d, source, encoding="utf-8"):
 
     logger.info("%d CIM objects serialised in %.2fs.", len(d), time() - t0)
 
+    return True
+
 
 if __name__ == "__main__":
     from RDFXMLReader import cimread
-- 
2.43.0


From afa7f43212b74f3fd68124e430364f359fbcfcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:16 +0000
Subject: [PATCH 14/29] fix: write files in the declared encoding

The encoding of the locale was used instead.
---
 PyCIM/SimpleXMLWriter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyCIM/SimpleXMLWriter.py b/PyCIM/SimpleXMLWriter.py
index 2da9f27..76badb5 100644
--- a/PyCIM/SimpleXMLWriter.py
+++ b/PyCIM/SimpleXMLWriter.py
@@ -151,7 +151,11 @@ class XMLWriter:
 
     def __init__(self, file, encoding="us-ascii"):
         if not hasattr(file, "write"):
-            file = open(file, "w")
+            if sys.version_info[0] < 3:
+                file = open(file, "w")
+            else: # text is encoded by the file object
+                file = open(file, "w", encoding=encoding,
+                            errors="xmlcharrefreplace")
         self.__write = file.write
         if hasattr(file, "flush"):
             self.flush = file.flush
-- 
2.43.0


From c60a8dc0da481b53be7c237b7d6f98754e375759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:20 +0000
Subject: [PATCH 15/29] fix: escape the white space that XML parsers normalise

---
 PyCIM/SimpleXMLWriter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyCIM/SimpleXMLWriter.py b/PyCIM/SimpleXMLWriter.py
index 76badb5..0995e8d 100644
--- a/PyCIM/SimpleXMLWriter.py
+++ b/PyCIM/SimpleXMLWriter.py
@@ -120,6 +120,7 @@ def escape_cdata(s, encoding=None):
     s = s.replace("&", "&amp;")
     s = s.replace("<", "&lt;")
     s = s.replace(">", "&gt;")
+    s = s.replace("\r", "&#13;")
     if encoding:
         try:
             return encode(s, encoding)
@@ -133,6 +134,9 @@ def escape_attrib(s, encoding=None):
     s = s.replace("\"", "&quot;")
     s = s.replace("<", "&lt;")
     s = s.replace(">", "&gt;")
+    s = s.replace("\t", "&#9;")
+    s = s.replace("\n", "&#10;")
+    s = s.replace("\r", "&#13;")
     if encoding:
         try:
             return encode(s, encoding)
-- 
2.43.0


From aa820806268f711681a66c47adc5beed2d5c4e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:24 +0000
Subject: [PATCH 16/29] fix: write attributes given as keyword arguments

---
 PyCIM/SimpleXMLWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyCIM/SimpleXMLWriter.py b/PyCIM/SimpleXMLWriter.py
index 0995e8d..ff4bc7a 100644
--- a/PyCIM/SimpleXMLWriter.py
+++ b/PyCIM/SimpleXMLWriter.py
@@ -210,7 +210,7 @@ class XMLWriter:
         if attrib or extra:
             combined_attrib = attrib.copy()
             combined_attrib.update(extra)
-            for k, v in sorted(attrib.items()):
+            for k, v in sorted(combined_attrib.items()):
                 k = escape_cdata(k, self.__encoding)
                 v = escape_attrib(v, self.__encoding)
                 self.__write(" %s=\"%s\"" % (k, v))
-- 
2.43.0


From 5cbd6a97704eae71c5bf3d1e7f0c6263e38258ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:41 +0000
Subject: [PATCH 17/29] fix: keep the operational limit sets assigned to an
 equipment

Follow-up of the 1:n list assignment fix: this list has no inverse property
that would fill it.
---
 CIM15/IEC61970/Core/Equipment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CIM15/IEC61970/Core/Equipment.py b/CIM15/IEC61970/Core/Equipment.py
index a5c0c8d..86509ad 100644
--- a/CIM15/IEC61970/Core/Equipment.py
+++ b/CIM15/IEC61970/Core/Equipment.py
@@ -138,6 +138,7 @@ class Equipment(PowerSystemResource):
             x.Equipment = None
         for y in value:
             y.Equipment = self
+        self._OperationalLimitSet = list(value)
 
     OperationalLimitSet = property(getOperationalLimitSet, setOperationalLimitSet)
 
-- 
2.43.0


From 4f63be326a50992c3d96972de40ef83eddd577ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:00 +0000
Subject: [PATCH 18/29] fix: import model packages one thread at a time

---
 PyCIM/RDFXMLReader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index dc06f64..aa82a13 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -22,11 +22,16 @@
 # IN THE SOFTWARE.
 
 from xml.etree.cElementTree import iterparse
+from threading import RLock
 from time import time
 
 import logging
 logger = logging.getLogger(__name__)
 
+# The model packages import each other, so that two threads which import them
+# for the first time could wait for each other.
+import_lock = RLock()
+
 
 def cimread(source, packageMap=None, nsURI=None, start_dict=None):
     """ CIM RDF/XML parser.
@@ -101,7 +106,8 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                     root.clear()
                     continue
                 # Import the module for the CIM object.
-                module = __import__(mname, globals(), locals(), [tag], 0)
+                with import_lock:
+                    module = __import__(mname, globals(), locals(), [tag], 0)
                 # Get the CIM class from the module.
                 klass = getattr(module, tag)
 
-- 
2.43.0


From d3acccc6f709d525e71d170260ba3c157ffbc768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:43 +0000
Subject: [PATCH 19/29] fix: write booleans in their xsd:boolean form

---
 PyCIM/RDFXMLWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyCIM/RDFXMLWriter.py b/PyCIM/RDFXMLWriter.py
index e5e5b07..d937c39 100644
--- a/PyCIM/RDFXMLWriter.py
+++ b/PyCIM/RDFXMLWriter.py
@@ -82,6 +82,8 @@ def cimwrite(d, source, encoding="utf-8"):
             for attr in attrs:
                 val = getattr(obj, attr)
                 if val != klass._defaults[attr]:
+                    if isinstance(val, bool): # xsd:boolean
+                        val = "true" if val else "false"
                     w.element(u"%s:%s.%s" % (nsPrefix, klass.__name__, attr),
                               str(val))
 
-- 
2.43.0


From 955ed349607d1a522d1d7c9a963817b8a0dd7d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:36 +0000
Subject: [PATCH 20/29] fix: detect the version from the outermost namespace
 declarations

---
 PyCIM/RDFXMLReader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index aa82a13..cb2591d 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -252,7 +252,8 @@ def xmlns(source):
     for (event, elem) in iterparse(source, events):
         if event == "start-ns":
             prefix, ns = elem
-            namespaces[prefix] = ns
+            # Elements further inside may use the prefix for something else.
+            namespaces.setdefault(prefix, ns)
         elif event == "end":
             break
 
-- 
2.43.0


From c2d0ac3b0d720608885e3a1907b4a6273f00b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:39 +0000
Subject: [PATCH 21/29] fix: do not list a one-directional partner twice when
 it is stated again

---
 PyCIM/RDFXMLReader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index cb2591d..0a6cb5d 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -208,6 +208,9 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                                         # bi-directional references.
                                         setattr(obj, attr, val)
                                     elif isinstance(default, list): # many
+                                        # It may have been stated before.
+                                        if val in default:
+                                            continue
                                         # Use 'add*' method to set reference.
                                         # One-directional ones have 'add_*'.
                                         add = getattr(obj, "add%s" % attr,
-- 
2.43.0


From 6d0115dbb63e1234c764de9fd6673b37e3674b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:32 +0000
Subject: [PATCH 22/29] fix: do not let a document set internals, methods or
 the identifier of an object

---
 PyCIM/RDFXMLReader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 0a6cb5d..e34cf3c 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -157,7 +157,11 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                             # Get the attribute/reference name.
                             attr = elem.tag[m:].rsplit(".")[-1]
 
-                            if not hasattr(obj, attr):
+                            # Internals, methods and the identifier are no
+                            # properties that a document may state.
+                            if attr.startswith("_") or attr == "UUID" or \
+                                    not hasattr(obj, attr) or \
+                                    callable(getattr(obj, attr)):
                                 error_msg = "'%s' has not attribute '%s'" %(obj.__class__.__name__, attr)
                                 try:
                                     logger_errors_grouped[error_msg] += 1
-- 
2.43.0


From 5be8a37b9142336189264428d6205bbdf490b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 23/29] fix: leave out statements of a form that their property
 cannot have

---
 PyCIM/RDFXMLReader.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index e34cf3c..456fb7d 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -175,6 +175,13 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                             # between attributes and references/enums.
                             uuid2 = elem.get("{%s}resource" % ns_rdf)
 
+                            if not fits(obj, attr, uuid2):
+                                logger.error("'%s.%s' can not be read from: %s",
+                                             obj.__class__.__name__, attr,
+                                             elem.text if uuid2 is None else
+                                             uuid2)
+                                continue
+
                             if uuid2 is None: # attribute
                                 # Convert value type using the default value.
                                 try:
@@ -249,6 +256,23 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
     return d
 
 
+def fits(obj, attr, resource):
+    """
+    Returns true if a statement with the given resource (None if it holds a
+    text) is of the form that the named attribute or reference asks for.
+
+    """
+    for klass in obj.__class__.mro():
+        if attr in getattr(klass, "_refs", ()): # reference
+            return resource is not None and resource.startswith("#")
+        elif attr in getattr(klass, "_enums", ()): # enum
+            return resource is None or not resource.startswith("#")
+        elif attr in getattr(klass, "_attrs", ()): # attribute
+            return resource is None
+
+    return True
+
+
 def xmlns(source):
     """
     Returns a map of prefix to namespace for the given XML file.
-- 
2.43.0


From a3c7da334c2ffc916026cbce716034a2ba4280ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:50 +0000
Subject: [PATCH 24/29] fix: refuse an unbalanced or mismatched end() also when
 Python runs with -O

---
 PyCIM/SimpleXMLWriter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/PyCIM/SimpleXMLWriter.py b/PyCIM/SimpleXMLWriter.py
index ff4bc7a..e1cd1fc 100644
--- a/PyCIM/SimpleXMLWriter.py
+++ b/PyCIM/SimpleXMLWriter.py
@@ -243,11 +243,13 @@ class XMLWriter:
 
     def end(self, tag=None):
         if tag:
-            assert self.__tags, "unbalanced end(%s)" % tag
-            assert escape_cdata(tag, self.__encoding) == self.__tags[-1],\
-                   "expected end(%s), got %s" % (self.__tags[-1], tag)
-        else:
-            assert self.__tags, "unbalanced end()"
+            if not self.__tags:
+                raise AssertionError("unbalanced end(%s)" % tag)
+            if escape_cdata(tag, self.__encoding) != self.__tags[-1]:
+                raise AssertionError("expected end(%s), got %s" %
+                                     (self.__tags[-1], tag))
+        elif not self.__tags:
+            raise AssertionError("unbalanced end()")
         tag = self.__tags.pop()
         if self.__data:
             self.__flush()
-- 
2.43.0


From cfb857796a97014ad55a4cbea042c1ad0cc59549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:08 +0000
Subject: [PATCH 25/29] fix: convert values read by the published type, not by
 that of the value held

An attribute to which the caller had given a value of another type (None, or a
whole number for a float) made cimread drop the value that a document states,
or refuse it.
---
 PyCIM/RDFXMLReader.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 456fb7d..1188a33 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -183,9 +183,9 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                                 continue
 
                             if uuid2 is None: # attribute
-                                # Convert value type using the default value.
+                                # Convert value to the published type.
                                 try:
-                                    typ = type( getattr(obj, attr) )
+                                    typ = attr_type(obj, attr)
                                     if typ == type(True): # KKG: Test if it is boolean value
                                         # KKG: NB: The function bool("false") returns True, because it is called upon non-empty string!
                                         # This means that it wrongly reads "false" value as boolean True and this is why this special case testing is necessary
@@ -273,6 +273,19 @@ def fits(obj, attr, resource):
     return True
 
 
+def attr_type(obj, attr):
+    """
+    Returns the type of the named attribute: the published one, whatever its
+    value is at the moment.
+
+    """
+    for klass in obj.__class__.mro():
+        if attr in getattr(klass, "_attr_types", ()):
+            return klass._attr_types[attr]
+
+    return type(getattr(obj, attr))
+
+
 def xmlns(source):
     """
     Returns a map of prefix to namespace for the given XML file.
-- 
2.43.0


From 11951d2e819b327261b695d777887571655323cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:35 +0000
Subject: [PATCH 26/29] fix: refuse numbers with underscores

int() and float() pass over an underscore between digits, so that 1_5 was read
as 15.
---
 PyCIM/RDFXMLReader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 1188a33..0a2151d 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -197,6 +197,10 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
                                         text = elem.text
                                         if text is None and typ == str:
                                             text = '' # empty element
+                                        if typ in (int, float) and text and "_" in text:
+                                            # int() and float() take it as
+                                            # a mark between digits.
+                                            raise ValueError("not a number: %r" % text)
                                         setattr(obj, attr, typ(text))
                                 except TypeError:
                                     pass
-- 
2.43.0


From d21ccdaec6702a8cb592b5e5c6aa405a392ccb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:48 +0000
Subject: [PATCH 27/29] fix: see a per-length impedance of a derived class as
 such

SequenceImpedance and PhaseImpedance of a line segment compared the exact class
and answered None for an impedance of a class of the caller's that is based on
one of the two.
---
 CIM15/IEC61970/Wires/ACLineSegment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CIM15/IEC61970/Wires/ACLineSegment.py b/CIM15/IEC61970/Wires/ACLineSegment.py
index ff9dd54..2d971dd 100644
--- a/CIM15/IEC61970/Wires/ACLineSegment.py
+++ b/CIM15/IEC61970/Wires/ACLineSegment.py
@@ -116,7 +116,7 @@ class ACLineSegment(Conductor):
     def getSequenceImpedance(self):
         """Sequence impedance of this line segment; used for balanced model.
         """
-        if type(self.PerLengthImpedance) is PerLengthSequenceImpedance:
+        if isinstance(self.PerLengthImpedance, PerLengthSequenceImpedance):
             return self.PerLengthImpedance
         else:
             return None
@@ -200,7 +200,7 @@ class ACLineSegment(Conductor):
     def getPhaseImpedance(self):
         """Phase impedance of this line segment; used for unbalanced model.
         """
-        if type(self.PerLengthImpedance) is PerLengthPhaseImpedance:
+        if isinstance(self.PerLengthImpedance, PerLengthPhaseImpedance):
             return self.PerLengthImpedance
         else:
             return None
-- 
2.43.0


From 44e025e4902c2b0386ac9299c801f1e375afe87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:34 +0000
Subject: [PATCH 28/29] fix: recognise RDF identifiers also where the prefix
 rdf stands for something else

The RDF namespace was taken to be whatever the prefix rdf is bound to, so that
a document with another prefix for RDF and another use of rdf gave nothing.
---
 PyCIM/RDFXMLReader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 0a2151d..1aef1df 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -313,10 +313,14 @@ def xmlns(source):
 
 
 def get_rdf_ns(namespaces):
+    rdf = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
+    if rdf in namespaces.values():
+        # Whatever the prefix, "rdf" may stand for something else.
+        return rdf
     try:
         ns = namespaces['rdf']
     except KeyError:
-        ns = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
+        ns = rdf
         logger.warn('No rdf namespace found. Using %s' % ns)
 
     return ns
-- 
2.43.0


From a6774852e231d87ac6bfefc343074075ba4ada44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:47 +0000
Subject: [PATCH 29/29] fix: report by Logger.warning, which does not raise
 when warnings are errors

---
 PyCIM/RDFXMLReader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyCIM/RDFXMLReader.py b/PyCIM/RDFXMLReader.py
index 1aef1df..f1a1175 100644
--- a/PyCIM/RDFXMLReader.py
+++ b/PyCIM/RDFXMLReader.py
@@ -250,7 +250,7 @@ def cimread(source, packageMap=None, nsURI=None, start_dict=None):
     if logger_errors_grouped:
         for error, count in logger_errors_grouped.items():
             logging_message = '%s : %d times' %(error, count)
-            logger.warn(logging_message)
+            logger.warning(logging_message)
 
     # logging_message = 'Created totally %d CIM objects in %.2fs.' %(len(d), time() - t0)
     logger.info('Created totally %d CIM objects in %.2fs.' %(len(d), time() - t0))
@@ -321,7 +321,7 @@ def get_rdf_ns(namespaces):
         ns = namespaces['rdf']
     except KeyError:
         ns = rdf
-        logger.warn('No rdf namespace found. Using %s' % ns)
+        logger.warning('No rdf namespace found. Using %s' % ns)
 
     return ns
 
@@ -353,7 +353,7 @@ def get_cim_ns(namespaces):
         ns  = 'CIM15'
     else:
         ns = 'CIM15'
-        logger.warn('Could not detect CIM version. Using %s.' % ns)
+        logger.warning('Could not detect CIM version. Using %s.' % ns)
 
     cim = __import__(ns, globals(), locals(), ['nsURI', 'packageMap'])
 
-- 
2.43.0

